import path from "node:path";
export const REPO = process.env.VERIF_REPO ?? "/repo";
export const LIB = path.join(REPO, "lib/digitraffic-common");
