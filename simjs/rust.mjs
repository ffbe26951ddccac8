// zkenc's command-line program beside the simulated JavaScript processes: requests go to
// `simfull serve`, which runs each command line in a simulated world of its own.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { spawn, execFileSync } from "node:child_process";
import { fileURLToPath } from "node:url";
import { Violation } from "./sim.mjs";

const here = path.dirname(fileURLToPath(import.meta.url));
const bin = process.env.SIMFULL_BIN ?? path.join(here, "..", ".build", "target", "release", "simfull");
let link = null;
function open() {
  if (link) return link;
  if (!fs.existsSync(bin)) throw new Error(`${bin} has not been built`);
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "simcross-"));
  const rq = path.join(dir, "rq"), an = path.join(dir, "an");
  execFileSync("mkfifo", [rq, an]);
  const child = spawn(bin, ["serve", rq, an], { stdio: ["ignore", "ignore", "inherit"] });
  child.unref();
  const to = fs.openSync(rq, "w"), from = fs.openSync(an, "r");
  fs.unlinkSync(rq); fs.unlinkSync(an); fs.rmdirSync(dir);
  return (link = { to, from, rest: Buffer.alloc(0) });
}
export function ask(req) {
  const l = open();
  const b = Buffer.from(JSON.stringify(req) + "\n");
  for (let at = 0; at < b.length; ) at += fs.writeSync(l.to, b, at);
  const parts = [l.rest], chunk = Buffer.alloc(1 << 20);
  for (;;) {
    const last = parts[parts.length - 1], nl = last.indexOf(10);
    if (nl >= 0) {
      parts[parts.length - 1] = last.subarray(0, nl);
      l.rest = Buffer.from(last.subarray(nl + 1));
      return JSON.parse(Buffer.concat(parts).toString("utf8"));
    }
    const n = fs.readSync(l.from, chunk);
    if (!n) throw new Error("simfull serve ended");
    parts.push(Buffer.from(chunk.subarray(0, n)));
  }
}
const hex = (b) => Buffer.from(b.buffer, b.byteOffset, b.length).toString("hex");
const unhex = (s) => new Uint8Array(Buffer.from(s, "hex"));
/** One run of the command-line program; files: {path: bytes}. */
export function cli(ctx, argv, files, faults) {
  const req = { argv, seed: ctx.tape.choose(0x7fffffff), tape: ctx.tape.choose(0x7fffffff), faults, files: Object.fromEntries(Object.entries(files).map(([k, v]) => [k, hex(v)])) };
  const r = ask(req);
  ctx.log(`zkenc ${argv.join(" ")} -> ${r.outcome} ${r.hash} ${Object.keys(r.files)}`);
  if (r.soft) { ctx.fired.short_or_interrupted = (ctx.fired.short_or_interrupted ?? 0) + Number(r.soft); }
  if (!r.clean) throw new Violation("cli_crashed", `zkenc ${argv.join(" ")} neither succeeded nor reported an error: ${r.trap ?? r.outcome} ${unhexText(r.stderr)}`);
  return { ok: r.ok, hard: r.hard, stdout: unhexText(r.stdout), stderr: unhexText(r.stderr), files: Object.fromEntries(Object.entries(r.files).map(([k, v]) => [k, unhex(v)])) };
}
const unhexText = (s) => Buffer.from(s ?? "", "hex").toString("utf8");
