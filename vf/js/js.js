// node js.js WASM_EXEC MODULE <strings: calls the JavaScript function for each line (a
// JSON string); writes for each a line {"how": "fulfilled|rejected|threw|silent", "what": ...}.
const fs = require("fs");
require(process.argv[2]); // defines Go

const waitFor = async (f, ms) => {
  for (let t = 0; t < ms && !f(); t += 10) await new Promise((r) => setTimeout(r, 10));
  return f();
};

(async () => {
  console.error = console.error || (() => {});
  const go = new Go();
  const { instance } = await WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject);
  let exited = false;
  go.run(instance).then(() => { exited = true; });
  await waitFor(() => typeof globalThis.parse_edtf === "function", 20000);
  const lines = fs.readFileSync(0, "utf8").split("\n").filter((x) => x !== "");
  const out = [];
  for (const line of lines) {
    const s = JSON.parse(line);
    let how = "silent", what = "";
    try {
      const late = new Promise((r) => { const t = setTimeout(() => r({ how: "silent", what: "" }), 20000); t.unref(); });
      const p = Promise.resolve(parse_edtf(s)).then((v) => ({ how: "fulfilled", what: v }), (e) => ({ how: "rejected", what: e }));
      ({ how, what } = await Promise.race([p, late]));
    } catch (e) {
      how = "threw"; what = String(e);
    }
    out.push(JSON.stringify({ how: how, type: typeof what, what: String(what), exited: exited }));
  }
  process.stdout.write(out.join("\n") + "\n", () => process.exit(0));
})();
