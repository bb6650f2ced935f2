// Drives the Node binding. Commands are read synchronously: between them the JavaScript thread is busy.
import fs from "node:fs";
const { watch } = await import(process.argv[2]);
const log = fs.openSync(process.env.STUB_LOG, "a");
const put = (o) => fs.writeSync(log, JSON.stringify(o) + "\n");
const hx = (s) => Buffer.from(s, "utf8").toString("hex");
process.on("uncaughtException", (e) => { if (e.message !== "the user's own") throw e; });
const objs = new Map(), got = new Map();
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
let buf = "";
const chunk = Buffer.alloc(65536);
const next = () => {
  for (;;) {
    const at = buf.indexOf("\n");
    if (at >= 0) { const l = buf.slice(0, at); buf = buf.slice(at + 1); return l; }
    let n = 0;
    try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) { if (e.code === "EAGAIN") continue; if (e.code === "EOF") return null; throw e; }
    if (n === 0) return null;
    buf += chunk.toString("latin1", 0, n);
  }
};
for (;;) {
  const line = next();
  if (line === null) break;
  const c = line.split(" ");
  const b = Number(c[1]);
  if (c[0] === "open") {
    got.set(b, 0);
    try {
      objs.set(b, watch(Buffer.from(c[2], "hex").toString("utf8"), (ev) => {
        const keys = Object.keys(ev).sort().join();
        const v = { t: ev.effectTime, p: hx(ev.pathName), has: ev.associatedPathName !== null, a: ev.associatedPathName === null ? "" : hx(ev.associatedPathName), e: ev.effectType, k: ev.pathType };
        const j = keys === "associatedPathName,effectTime,effectType,pathName,pathType" ? v : { bad: keys };
        put({ k: "bev", b, v, j });
        got.set(b, got.get(b) + 1);
        if ((c[3] || "").includes("angry") && got.get(b) % 2) throw new Error("the user's own");
      }));
      put({ k: "bopened", b, ok: true });
    } catch (e) { put({ k: "bopened", b, ok: false }); }
  } else if (c[0] === "close") {
    const r = objs.get(b).close();
    put({ k: "ended", b, how: "close", r });
  } else if (c[0] === "look") {
    // until n events have arrived, and a little longer
    const n = Number(c[2]), t0 = Date.now();
    while (got.get(b) < n && Date.now() - t0 < Number(c[3])) await sleep(1);
    await sleep(2);
    put({ k: "looked", b });
  } else if (c[0] === "reset") { objs.clear(); }
  else if (c[0] === "gc") { if (global.gc) global.gc(); await sleep(0); }
  fs.writeSync(1, "ok\n");
}
