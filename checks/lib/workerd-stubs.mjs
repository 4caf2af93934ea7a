// packages/backend-recorder-workerd/src/coverage is git-ignored upstream and
// absent from the pinned tree; everything the rest needs from it is this.
import { REPO } from "../../sim/bundle.mjs";
export const WORKERD_STUBS = [
  { test: /backend-recorder-workerd\/src\/coverage\/replay-coverage$/, contents: `
      import { requestCaptureContext } from "${REPO}/packages/backend-recorder-workerd/src/context";
      export const runReplayWithCoverage = (ctx, invokeHandler) => requestCaptureContext.run(ctx, invokeHandler);` },
  { test: /backend-recorder-workerd\/src\/coverage\//, contents:
      ["__mcEnter", "__mcHit", "collectHitIds", "createCoverageSink", "getCoverageMap", "getUnreportedCoverageFiles",
       "markCoverageFilesReported", "registerCoverageFile"].map((n) => `export const ${n} = () => undefined;`).join("\n") },
];
