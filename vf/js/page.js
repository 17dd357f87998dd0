// node page.js URL <strings: opens the page of the server, types each line (a JSON
// string) into it and presses the button; writes for each {"json"|"error": what is shown}.
// There is no browser here: the page's own scripts run with the few things of a
// document that they use.
const fs = require("fs"), vm = require("vm");
const base = process.argv[2];

class Element {
  constructor(tag) { this.tag = tag; this.children = []; this.style = {}; this.attributes = {}; this.value = ""; this.text = ""; }
  set innerText(t) { this.text = String(t); this.children = []; }
  get innerText() { return this.text + this.children.map((c) => c.innerText).join(""); }
  set innerHTML(t) { this.text = String(t); this.children = []; }
  get innerHTML() { return this.innerText; }
  set textContent(t) { this.innerText = t; }
  get textContent() { return this.innerText; }
  appendChild(c) { this.children.push(c); return c; }
  append(c) { this.children.push(c); }
  setAttribute(k, v) { this.attributes[k] = v; }
  removeAttribute(k) { delete this.attributes[k]; }
  getAttribute(k) { return this.attributes[k]; }
}

const get = async (u) => {
  const rsp = await fetch(new URL(u, base));
  return { status: rsp.status, type: rsp.headers.get("content-type") || "", body: Buffer.from(await rsp.arrayBuffer()) };
};
const waitFor = async (f, ms) => {
  for (let t = 0; t < ms && !f(); t += 10) await new Promise((r) => setTimeout(r, 10));
  return f();
};

(async () => {
  const served = {};
  const page = await get("/");
  served["/"] = page.status;
  const html = page.body.toString();
  const elements = {};
  for (const m of html.matchAll(/<([a-zA-Z]+)[^>]*\bid="([^"]+)"[^>]*>/g)) {
    elements[m[2]] = new Element(m[1]);
    if (/\bdisabled\b/.test(m[0])) elements[m[2]].attributes.disabled = "";
  }
  const listeners = {};
  globalThis.window = globalThis;
  globalThis.document = {
    getElementById: (id) => elements[id] || null,
    querySelector: (q) => (q[0] === "#" ? elements[q.slice(1)] || null : null),
    createElement: (t) => new Element(t),
    addEventListener: (n, f) => { (listeners[n] = listeners[n] || []).push(f); },
    baseURI: base,
  };
  globalThis.addEventListener = (n, f) => { (listeners[n] = listeners[n] || []).push(f); };
  const real = globalThis.fetch;
  globalThis.fetch = (u, o) => real(new URL(u, base), o);
  console.log = () => {};
  console.error = () => {};
  for (const m of html.matchAll(/<link[^>]*\bhref="([^"]+)"/g)) served[m[1]] = (await get(m[1])).status;
  for (const m of html.matchAll(/<script[^>]*\bsrc="([^"]+)"/g)) {
    const js = await get(m[1]);
    served[m[1]] = js.status;
    if (js.status === 200) vm.runInThisContext(js.body.toString(), { filename: m[1] });
  }
  for (const f of listeners.load || []) f({});
  const ready = await waitFor(() => elements.button && !("disabled" in elements.button.attributes), 30000);
  const out = [JSON.stringify({ served: served, ready: ready, button: elements.button ? elements.button.innerText : null })];
  const lines = fs.readFileSync(0, "utf8").split("\n").filter((x) => x !== "");
  for (const line of ready ? lines : []) {
    elements.raw.value = JSON.parse(line);
    try {
      await globalThis.parse();
      await waitFor(() => elements.result.style.display === "block", 20000);
      const pre = elements.result.children.find((c) => c.tag === "pre");
      out.push(JSON.stringify({ kind: pre ? "json" : elements.result.innerText === "" ? "nothing" : "error", text: elements.result.innerText, displayed: elements.result.style.display }));
    } catch (e) {
      out.push(JSON.stringify({ kind: "crashed", text: String(e) }));
    }
  }
  process.stdout.write(out.join("\n") + "\n", () => process.exit(0));
})();
