// Reads documents (4 bytes of length, then text) and answers one line for each: the tree or an error.
import * as fs from "node:fs";
const { parse, ParseError } = await import(process.argv[2]);
const q = (s: string) => JSON.stringify(s).replace(/[\u0080-\uffff]/g, (c) => "\\u" + c.charCodeAt(0).toString(16).padStart(4, "0"));
function payload(p: any): string {
  const s = `${p.span.start},${p.span.end}`;
  if (p.type === "scalar") return `s${p.kind} ${s} ${q(p.text)}`;
  if (p.type === "sequence") return `(${s}${p.items.map((i: any) => " " + value(i)).join("")})`;
  return `{${s}${p.entries.map((e: any) => " " + entry(e)).join("")}}`;
}
function value(v: any): string {
  if (v.tag !== undefined) return `@${q(v.tag.name)} ${v.span.start},${v.span.end}${v.payload === undefined ? "" : " " + payload(v.payload)}`;
  if (v.payload === undefined) return `@ ${v.span.start},${v.span.end}`;
  return payload(v.payload);
}
const entry = (e: any) => `[${value(e.key)} ${value(e.value)}]`;
function answer(src: string): string {
  try {
    return "ok " + parse(src).entries.map(entry).join(" ");
  } catch (e: any) {
    if (e instanceof ParseError) return `error ${e.span.start},${e.span.end} ${q(e.message)}`;
    return "crash " + q(String(e));
  }
}
let have = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function read(n: number): Buffer | null {
  while (have.length < n) {
    const k = fs.readSync(0, chunk);
    if (k === 0) return null;
    have = Buffer.concat([have, chunk.subarray(0, k)]);
  }
  const r = have.subarray(0, n);
  have = have.subarray(n);
  return r;
}
for (;;) {
  const n = read(4)?.readUInt32LE(0);
  if (n === undefined) break;
  const src = read(n);
  if (src === null) break;
  fs.writeSync(1, answer(src.toString("utf-8")) + "\n");
}
