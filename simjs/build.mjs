// Turns the TypeScript half of zkenc-js and the pages of the web site (as they are in /repo now) into functions the simulator can
// instantiate as often as it likes: .build/js/modules.json = { path: CommonJS source }.
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
import { fileURLToPath } from "node:url";
const require = createRequire(import.meta.url);
const ts = require("/opt/veriftools/node/node_modules/typescript");

const here = path.dirname(fileURLToPath(import.meta.url));
const src = "/repo/packages/zkenc-js/src";
const docs = "/repo/docs/src";
const out = path.join(here, "..", ".build", "js");
const modules = {};
let bad = 0;

// import("x") -> __dynImport("x"): loading a chunk is an event of its own
const dynImport = (ctx) => (file) => {
  const visit = (n) => {
    n = ts.visitEachChild(n, visit, ctx);
    if (ts.isCallExpression(n) && n.expression.kind === ts.SyntaxKind.ImportKeyword)
      return ts.factory.createCallExpression(ts.factory.createIdentifier("__dynImport"), undefined, n.arguments);
    return n;
  };
  return ts.visitNode(file, visit);
};
function walk(dir, root = src, under = "", only = /\.(ts|js|mjs)$/) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) walk(p, root, under, only);
    else if (only.test(e.name) && !/\.(test|spec|d)\.ts$/.test(e.name)) {
      const text = fs.readFileSync(p, "utf8");
      const r = ts.transpileModule(text, {
        fileName: p,
        reportDiagnostics: true,
        compilerOptions: {
          target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, esModuleInterop: true,
          allowJs: true, removeComments: false, strict: true, jsx: ts.JsxEmit.ReactJSX,
        },
        transformers: { before: [dynImport] },
      });
      for (const d of r.diagnostics ?? []) {
        bad++;
        console.error(p, ts.flattenDiagnosticMessageText(d.messageText, "\n"));
      }
      modules[under + path.relative(root, p)] = r.outputText;
    }
  }
}
walk(src);
walk(docs, docs, "@docs/", /\.tsx?$/);
if (bad) process.exit(1);
fs.mkdirSync(out, { recursive: true });
fs.writeFileSync(path.join(out, "modules.json"), JSON.stringify(modules));
