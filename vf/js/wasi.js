// node wasi.js MODULE <runs: runs the WASI module, once for each line (a JSON list of
// arguments); writes for each a line {"code": exit code, "out": what it wrote}.
// Just as much of WASI preview 1 as a program needs that has arguments and writes
// (node's own WASI crashes now and then when it is used many times).
const fs = require("fs"), crypto = require("crypto");

class Exit extends Error {
  constructor(code) {
    super("exit");
    this.code = code;
  }
}

const BADF = 8, NOSYS = 52;

function world(args) {
  const out = [];
  let mem = null;
  const view = () => new DataView(mem.buffer);
  const bytes = (p, n) => new Uint8Array(mem.buffer, p, n);
  const strings = args.map((x) => Buffer.from(x + "\0", "utf8"));
  const now = () => process.hrtime.bigint();
  const imports = {
    args_sizes_get(n, size) {
      view().setUint32(n, strings.length, true);
      view().setUint32(size, strings.reduce((a, x) => a + x.length, 0), true);
      return 0;
    },
    args_get(list, p) {
      for (const x of strings) {
        view().setUint32(list, p, true);
        bytes(p, x.length).set(x);
        list += 4;
        p += x.length;
      }
      return 0;
    },
    environ_sizes_get(n, size) {
      view().setUint32(n, 0, true);
      view().setUint32(size, 0, true);
      return 0;
    },
    environ_get: () => 0,
    clock_time_get(id, precision, p) {
      view().setBigUint64(p, id === 0 ? BigInt(Date.now()) * 1000000n : now(), true);
      return 0;
    },
    random_get(p, n) {
      crypto.randomFillSync(bytes(p, n));
      return 0;
    },
    sched_yield: () => 0,
    proc_exit(code) {
      throw new Exit(code);
    },
    fd_write(fd, list, n, written) {
      if (fd !== 1 && fd !== 2) return BADF;
      let total = 0;
      for (let i = 0; i < n; i++) {
        const p = view().getUint32(list + 8 * i, true), k = view().getUint32(list + 8 * i + 4, true);
        out.push(Buffer.from(bytes(p, k)));
        total += k;
      }
      view().setUint32(written, total, true);
      return 0;
    },
    fd_read(fd, list, n, read) {
      if (fd !== 0) return BADF;
      view().setUint32(read, 0, true);
      return 0;
    },
    fd_fdstat_get(fd, p) {
      if (fd > 2) return BADF;
      bytes(p, 24).fill(0);
      view().setUint8(p, 2); // a character device
      view().setBigUint64(p + 8, 0xffffffffn, true);
      return 0;
    },
    fd_close: (fd) => (fd > 2 ? BADF : 0),
    fd_fdstat_set_flags: (fd) => (fd > 2 ? BADF : 0),
    fd_prestat_get: () => BADF,
    fd_prestat_dir_name: () => BADF,
    // every clock that is waited for has come
    poll_oneoff(list, events, n, stored) {
      for (let i = 0; i < n; i++) {
        const s = list + 48 * i, e = events + 32 * i;
        bytes(e, 32).fill(0);
        view().setBigUint64(e, view().getBigUint64(s, true), true);
        view().setUint8(e + 10, view().getUint8(s + 8));
      }
      view().setUint32(stored, n, true);
      return 0;
    },
  };
  return { imports, out, use: (m) => (mem = m) };
}

(async () => {
  const module = await WebAssembly.compile(fs.readFileSync(process.argv[2]));
  const lines = fs.readFileSync(0, "utf8").split("\n").filter((x) => x !== "");
  for (const line of lines) {
    const w = world(["parse"].concat(JSON.parse(line)));
    const all = Object.assign({}, w.imports);
    for (const x of WebAssembly.Module.imports(module)) if (!(x.name in all)) all[x.name] = () => NOSYS;
    let code = 0;
    try {
      const instance = await WebAssembly.instantiate(module, { wasi_snapshot_preview1: all });
      w.use(instance.exports.memory);
      instance.exports._start();
    } catch (e) {
      code = e instanceof Exit ? e.code : "crashed: " + e;
    }
    console.log(JSON.stringify({ code: code, out: Buffer.concat(w.out).toString("utf8") }));
  }
})();
