// Executes tests (one per line of stdin) on the real addon; the events of a
// test are written to a file and printed as one JSON array.
const fs = require('fs'), events = require('events');
const addon = process.argv[2], logName = process.argv[3];
const fd = fs.openSync(logName, 'a+');
process.env.LOGFD = String(fd);
const connect = require(addon);
const put = (e) => fs.writeSync(fd, JSON.stringify(e) + '\n');
let slots = {}, ids = 0, refs = [];

function make(c, kind) {
  const em = new events.EventEmitter();
  em.setMaxListeners(100);
  const send = (d) => (kind % 4 < 2 || global.gc({type: kind % 8 < 6 ? 'minor' : 'major'}), put({k: 'sent', c: c, l: 0, b: typeof d === 'string' ? [...Buffer.from(d, 'utf8')] : [-1], err: false}));
  const on = (ev, cb) => { em.on(ev, cb); };
  const con = kind % 2 ? connect(send, on) : connect(send, on, 1);
  if (typeof con !== 'object' || typeof con.startServer !== 'function') throw new Error('no connection');
  const id = ++ids;
  refs.push({id: id, ref: new WeakRef(con), fns: [new WeakRef(send), new WeakRef(on)]});
  slots[c] = {em: em, id: id, con: con};
}
function bad(kind) {
  const f = () => {};
  switch (kind % 6) {
  case 0: return connect();
  case 1: return connect(f);
  case 2: return connect(1, f);
  case 3: return connect(f, 'x');
  case 4: return connect(null, undefined);
  default: return connect({}, []);
  }
}
function guard(c, f) {
  try { f(); } catch (e) {
    put({k: e instanceof TypeError ? 'error' : 'other: ' + e, c: c, l: 0, b: [], err: false});
  }
}
function run(o) {
  const s = slots[o.c] || {id: 0};
  if (o.op === 'connect') {
    put(Object.assign({k: 'op', id: ids + 1}, o));
    guard(o.c, () => make(o.c, o.v));
    return;
  }
  put(Object.assign({k: 'op', id: s.id}, o));
  switch (o.op) {
  case 'badconnect': guard(o.c, () => bad(o.v)); break;
  case 'start':
    process.env.PLAN = `${o.c} ${o.nr} ${o.nc} ${o.v} ${o.late}`;
    guard(o.c, () => s.con.startServer());
    s.con = null; // the server keeps the connection
    break;
  case 'data': {
    // a view of a larger buffer or a plain array of bytes
    const big = Buffer.concat([Buffer.from('<<'), Buffer.from(o.b), Buffer.from('>>')]);
    const d = o.v % 3 === 0 ? Buffer.from(o.b) : o.v % 3 === 1 ? big.subarray(2, 2 + o.b.length) : Uint8Array.from(o.b);
    guard(o.c, () => s.em.emit('data', d));
    break;
  }
  case 'baddata': guard(o.c, () => s.em.emit('data', ...[['text'], [], [null], [5]][o.v % 4])); break;
  case 'close': guard(o.c, () => s.em.emit('close', o.err)); s.con = null; slots[o.c] = {id: 0}; break;
  case 'badclose': guard(o.c, () => s.em.emit('close', ...[['no'], [], [null], [1]][o.v % 4])); break;
  case 'gc': break;
  }
}
const tick = () => new Promise((r) => setImmediate(r));
async function there() {
  // a connection is collected before its functions are; what looks as if it
  // stayed gets more time
  let ids = [], fns = [];
  const open = Object.values(slots).map((s) => s.id);
  for (let k = 0; k < 5 || (k < 25 && !ids.concat(fns).every((x) => open.includes(x))); ++k) {
    global.gc();
    await tick();
    ids = refs.filter((r) => r.ref.deref() !== undefined).map((r) => r.id);
    fns = refs.filter((r) => r.fns.some((f) => f.deref() !== undefined)).map((r) => r.id);
    await tick();
  }
  put({k: 'there', ids: ids, fns: fns});
  await tick();
}
async function main() {
  for (const line of fs.readFileSync(0, 'utf8').split('\n')) {
    if (!line) continue;
    fs.ftruncateSync(fd, 0);
    slots = {}; refs = []; ids = 0;
    for (const o of JSON.parse(line)) {
      run(o);
      if (o.op === 'gc') await there();
    }
    await there();
    const log = fs.readFileSync(logName, 'utf8').split('\n').filter((x) => x);
    process.stdout.write('[' + log.join(',') + ']\n');
    // what is left over is dropped
    for (const c in slots) if (slots[c].em && !slots[c].con) slots[c].em.emit('close', false);
  }
}
main();
