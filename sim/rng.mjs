// Seeded, labelled choice streams. Every nondeterministic decision of a run is
// one draw from one stream; draws are recorded so that a run can be replayed
// and minimised. Choice 0 is by convention the benign one.
const hashStr = (s, seed) => {
  let h = (0x811c9dc5 ^ seed) >>> 0;
  for (let i = 0; i < s.length; i++) {
    h ^= s.charCodeAt(i);
    h = Math.imul(h, 0x01000193) >>> 0;
  }
  h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b) >>> 0;
  h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35) >>> 0;
  return (h ^ (h >>> 16)) >>> 0;
};
const sfc32 = (a, b, c, d) => () => {
  a |= 0; b |= 0; c |= 0; d |= 0;
  const t = (((a + b) | 0) + d) | 0;
  d = (d + 1) | 0;
  a = b ^ (b >>> 9);
  b = (c + (c << 3)) | 0;
  c = (c << 21) | (c >>> 11);
  c = (c + t) | 0;
  return t >>> 0;
};
export const makeRng = (seed, label) => {
  const r = sfc32(
    hashStr(label, seed >>> 0),
    hashStr(label, Math.floor(seed / 4294967296) ^ 0x9e3779b9),
    hashStr(label + "#", seed ^ 0x243f6a88), 1);
  for (let i = 0; i < 12; i++) r();
  return r;
};
export class Choices {
  constructor(seed, replay) {
    this.seed = seed;
    this.replay = replay ?? null; // {label: number[]}
    this.streams = new Map();
    this.draws = 0;
  }
  stream(label) {
    let s = this.streams.get(label);
    if (!s) {
      s = { rng: this.replay ? null : makeRng(this.seed, label), rec: [], pos: 0 };
      this.streams.set(label, s);
    }
    return s;
  }
  /** A value in [0, n). mk maps the raw u32 to a value when generating. */
  draw(label, n, mk) {
    this.draws++;
    const s = this.stream(label);
    let v;
    if (this.replay) {
      const list = this.replay[label];
      v = list && s.pos < list.length ? list[s.pos] : 0;
      if (!(v < n)) v = n > 0 ? v % n : 0;
    } else {
      v = n <= 1 ? 0 : mk ? mk(s.rng()) : Math.floor((s.rng() / 4294967296) * n);
    }
    s.pos++;
    s.rec.push(v);
    return v;
  }
  recorded() {
    const out = {};
    for (const [k, s] of this.streams) {
      let end = s.rec.length;
      while (end > 0 && s.rec[end - 1] === 0) end--;
      if (end > 0) out[k] = s.rec.slice(0, end);
    }
    return out;
  }
}
