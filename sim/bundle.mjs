// Bundles /repo sources (working tree) with esbuild; module and global seams
// are redirected here.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import { GLOBAL_NAMES } from "./proc.mjs";
const req = createRequire(import.meta.url);
export const REPO = process.env.VERIF_REPO ?? "/repo";
const loadEsbuild = () => {
  for (const p of ["/opt/veriftools/node/node_modules/esbuild", `${REPO}/node_modules/esbuild`, "/repo/node_modules/esbuild"]) {
    try { return req(p); } catch { /* next */ }
  }
  throw new Error("esbuild not found");
};
const BUILTINS = new Set(req("node:module").builtinModules);

/**
 * @param entry  { name: "/abs/or/rel/to/repo path" , ...} exported as namespaces
 * @param opts.real  npm packages to bundle for real: {name: dir}
 * @param opts.replace  map of regex-source -> replacement module text (path based stubs for repo files)
 */
export const bundle = async (entries, opts = {}) => {
  const esbuild = loadEsbuild();
  const stdin = Object.entries(entries)
    .map(([k, p]) => `export * as ${k} from ${JSON.stringify(p.startsWith("/") ? p : path.join(REPO, p))};`).join("\n");
  const stubText = opts.stubFiles ?? []; // [{test: RegExp on absolute import path, contents}]
  const plugin = {
    name: "sim",
    setup(b) {
      b.onResolve({ filter: /.*/ }, (args) => {
        if (args.pluginData === "skip") return undefined;
        const p = args.path;
        if (args.kind === "entry-point") return undefined;
        if (p.startsWith(".") || p.startsWith("/")) {
          const abs = p.startsWith("/") ? p : path.resolve(args.resolveDir, p);
          for (const s of stubText) if (s.test.test(abs)) return { path: abs, namespace: "simstub", pluginData: s };
          if (args.namespace === "simstub") for (const e of [".ts", "/index.ts", ""]) if (fs.existsSync(abs + e)) return { path: abs + e, namespace: "file" };
          return undefined;
        }
        const bare = p.startsWith("node:") ? p.slice(5) : p;
        if (BUILTINS.has(bare)) return { path: p, external: true };
        if (p.startsWith("@alwaysmeticulous/")) {
          const rest = p.slice("@alwaysmeticulous/".length);
          const [pkg, ...sub] = rest.split("/");
          if (opts.stubPackages?.has(p)) return { path: p, external: true };
          if (opts.real?.[p]) return { path: opts.real[p] };
          const base = `${REPO}/packages/${pkg}`;
          const tries = sub.length
            ? [`${base}/src/${sub.join("/")}.ts`, `${base}/src/${sub.join("/")}/index.ts`, `${base}/${sub.join("/")}`]
            : [`${base}/src/index.ts`];
          if (sub[0] === "dist") tries.push(`${base}/src/${sub.slice(1).join("/")}.ts`, `${base}/src/${sub.slice(1).join("/")}/index.ts`);
          const exp = sub.length ? exportPath(base, sub.join("/")) : null;
          if (exp) tries.unshift(exp);
          for (const t of tries) if (fs.existsSync(t) && fs.statSync(t).isFile()) return { path: t };
          return { path: p, external: true };
        }
        if (opts.real?.[p]) return { path: opts.real[p] };
        return { path: p, external: true };
      });
      b.onLoad({ filter: /.*/, namespace: "simstub" }, (args) => ({ contents: args.pluginData.contents, loader: "js", resolveDir: path.dirname(args.path) }));
      b.onLoad({ filter: /\.(node|html|md|txt|snap)$/ }, (args) => ({ contents: fs.readFileSync(args.path), loader: "text" }));
    },
  };
  const define = {};
  for (const g of GLOBAL_NAMES) define[g] = `__simG.${g}`;
  define["import.meta.url"] = '"file:///sim/bundle.js"';
  Object.assign(define, opts.define ?? {});
  const result = await esbuild.build({
    stdin: { contents: stdin, resolveDir: REPO, loader: "ts" },
    bundle: true, write: false, format: "cjs", platform: "node", target: "es2022",
    define, plugins: [plugin], ...(opts.supported ? { supported: opts.supported } : {}), logLevel: "silent", sourcemap: false, charset: "utf8", metafile: true,
    tsconfigRaw: { compilerOptions: { target: "es2022", useDefineForClassFields: true, jsx: "react" } }, treeShaking: true,
  });
  const code = result.outputFiles[0].text;
  return { code, inputs: Object.keys(result.metafile.inputs).filter((f) => !f.startsWith("simstub")).length };
};
const exportPath = (base, sub) => {
  try {
    const pkg = JSON.parse(fs.readFileSync(`${base}/package.json`, "utf8"));
    const e = pkg.exports?.[`./${sub}`];
    let f = typeof e === "string" ? e : e?.import ?? e?.default ?? e?.require;
    if (f && typeof f === "object") f = f.default ?? f.types;
    if (!f) return null;
    f = f.replace(/^\.\//, "").replace(/^dist\//, "src/").replace(/\.d\.ts$|\.[cm]?js$/, "");
    for (const x of [".ts", "/index.ts", ".tsx"]) if (fs.existsSync(`${base}/${f}${x}`)) return `${base}/${f}${x}`;
  } catch { /* none */ }
  return null;
};
