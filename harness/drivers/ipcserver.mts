// Drives the real IpcServer over a real unix socket in the scratch HOME.
import net from 'node:net';
import { mkdirSync, rmSync } from 'node:fs';
import { dirname } from 'node:path';
import { deferred, settle, rngFrom } from '../lib/util.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const { IpcServer } = await import(`${R}/src/daemon/server.ts`);
const { PATHS } = await import(`${R}/src/shared/paths.ts`);
if (!String(PATHS.sockFile).startsWith(process.env.HOME!)) throw new Error('socket outside the scratch home');
mkdirSync(dirname(PATHS.sockFile), { recursive: true });

const TEXT = ['añb', '日本語 テキスト', 'smile 😀 end', 'plain', 'é\u2028ü “q” \\n'];
export default async function create(ctx: any) {
  const rng = rngFrom(ctx.seed * 31 + 5); const fl: number = ctx.flavour; const pick = <T,>(a: T[]): T => a[Math.floor(rng() * a.length)]!;
  let srv: any = null, ctl: any = null, clock = 1000, pingN = 0, connN = 0;
  let cl: Record<string, any> = {}; let runs: any[] = []; let orphans: any[] = []; let slots: string[] = []; let stray: any[] = [];
  // one client connection
  function open(c: string) {
    const s = net.createConnection(PATHS.sockFile); const o: any = { c, conn: ++connN, s, buf: Buffer.alloc(0), in: [] as any[], nextId: 0, part: null, map: new Map(), closed: false };
    s.on('data', (d: Buffer) => { o.buf = Buffer.concat([o.buf, d]); let i; while ((i = o.buf.indexOf(10)) >= 0) { const line = o.buf.subarray(0, i).toString('utf8'); o.buf = o.buf.subarray(i + 1); try { o.in.push(JSON.parse(line)); } catch { o.in.push({ id: 'garbled', line }); } } });
    s.on('error', () => {}); s.on('close', () => { o.closed = true; });
    return o;
  }
  async function barrier() {
    for (let k = 0; k < 3; k++) {
      const id = ++pingN; ctl.s.write(JSON.stringify({ id, method: 't.ping', client: { label: 'ctl', pid: 1 } }) + '\n');
      const t = performance.now();
      while (!ctl.in.some((m: any) => m.id === id)) { if (performance.now() - t > 10000) throw new Error('the server no longer answers'); await settle(1); }
      ctl.in = ctl.in.filter((m: any) => m.id !== id);
      await settle(2);
    }
  }
  const boom = (tag: string) => `boom ${tag} ☠`;
  const raise = (tag: string): any => fl === 1 ? boom(tag) : new Error(boom(tag));
  const gated = (k: string) => (p: any, send?: any, signal?: AbortSignal) => { const g = deferred(); const r = { tag: p.tag, p, k, g, send, signal, done: false }; runs.push(r); return g.promise; };
  const handlers: any = {
    't.ping': async () => 'pong', 't.now': async (p: any) => ({ echo: p }), 't.void': async () => undefined, 't.fail': async (p: any) => { throw raise(p.tag); },
    't.sync': (p: any) => { throw raise(p.tag); }, 't.unser': async () => { if (fl === 2) return { n: 1n }; const a: any = {}; a.a = a; return a; }, 't.ok': gated('plain'),
  };
  const streams: any = { 't.strm': gated('strm') };
  /** a request line of kind k; registers the id */
  function makeLine(o: any, k: string) {
    if (k === 'blank') return { k, bytes: Buffer.from(pick(['\n', '   \n', '\r\n'])) };
    if (k === 'bad') return { k, bytes: Buffer.from(pick(['{"id":5,"method":"t.now"\n', 'héllo 😀\n', '{bad}\n'])) };
    if (k === 'null') return { k, bytes: Buffer.from(pick(['null\n', '3\n', '"x😀"\n', 'true\n'])) };
    const id = o.nextId++; const tag = `${o.conn}/${id}`;
    const method = ({ now: 't.now', goodid: 't.now', badid: 't.now', void: 't.void', fail: 't.fail', sync: 't.sync', unser: 't.unser', unk: 't.nope', strunk: 't.nope', proto: 'toString', ok: 't.ok', okstream: 't.ok', strm: 't.strm' } as any)[k];
    const req: any = { id, method, params: { tag, text: pick(TEXT) } };
    if (k === 'proto') req.method = 'toString';
    if (['okstream', 'strm', 'strunk'].includes(k)) req.stream = true;
    if (k === 'goodid') req.client = { label: 'cli', pid: 5000 + Number(o.c) };
    if (k === 'badid') req.client = pick<any>([{ label: 'x'.repeat(65), pid: 3 }, { label: 'cli', pid: 0 }, { label: 'cli', pid: 1.5 }, { label: '', pid: 3 }, { label: 7, pid: 3 }, { label: 'cli' }, null, 'cli']);
    return { k, id, tag, req, bytes: Buffer.from(JSON.stringify(req) + '\n', 'utf8') };
  }
  const cutAt = (b: Buffer) => {
    const mb: number[] = []; for (let i = 1; i < b.length - 1; i++) if ((b[i]! & 0xC0) === 0x80) mb.push(i);
    const r = rng(); if (mb.length && r < 0.5) return pick(mb); if (r < 0.65) return b.length - 1; if (r < 0.75) return 1; return 1 + Math.floor(rng() * (b.length - 1));
  };
  const label = (o: any, l: any, m: any): string => {
    if (m.id !== l.id) return 'wrong id';
    if (m.stream !== undefined) {
      if (m.stream === 'progress') return JSON.stringify(m.data) === JSON.stringify({ tag: l.tag, text: l.req.params.text }) ? 'progress' : 'corrupt';
      if (m.stream === 'done') return m.data?.tag === l.tag ? 'done' : 'corrupt';
      if (m.stream === 'error') return m.data?.error === boom(l.tag) ? 'error' : 'wrong error';
      return `stream ${m.stream}`;
    }
    if (m.error !== undefined) { if (m.result !== undefined) return 'both'; if (['fail', 'sync', 'ok', 'okstream'].includes(l.k)) return m.error === boom(l.tag) ? 'error' : 'wrong error'; return typeof m.error === 'string' && m.error.length > 0 ? 'error' : 'bad error'; }
    if (l.k === 'void') return m.result === undefined ? 'result' : 'corrupt';
    return JSON.stringify(m.result) === JSON.stringify({ echo: l.req.params }) ? 'result' : 'corrupt';
  };
  /** everything clients heard since the last step; only client c may have heard anything */
  function heard(c: string | null): any {
    const res: any = { msgs: [], rejected: 0 };
    for (const x of Object.values(cl)) {
      const o: any = x; const got = o.in; o.in = []; if (got.length === 0) continue;
      if (o.c !== c) { (res.others ??= []).push({ c: o.c, got }); continue; }
      const by = new Map<number, any>();
      for (const m of got) {
        if (m.id === -1 && typeof m.error === 'string' && m.error) { res.rejected++; continue; }
        const l = o.map.get(m.id); if (!l) { (res.stray ??= []).push(m); continue; }
        const e = by.get(l.sid) ?? { id: l.sid, msgs: [] }; e.msgs.push(label(o, l, m)); by.set(l.sid, e);
      }
      res.msgs = [...by.values()].sort((a, b) => a.id - b.id);
    }
    return res;
  }
  const alive = (o: any) => runs.filter(r => !r.done && r.tag.startsWith(`${o.conn}/`));
  const entry = (o: any, i: number) => o.open[i - 1];
  return {
    crashes: true,
    async reset(init: any) {
      if (srv) { for (const o of Object.values(cl) as any[]) o.s.destroy(); for (const r of runs) if (!r.done) r.g.resolve(undefined); ctl.s.destroy(); await srv.close(); }
      rmSync(PATHS.sockFile, { force: true }); cl = {}; runs = []; orphans = []; stray = [];
      slots = (Array.isArray(init.running) ? init.running.map((_: any, i: number) => String(i + 1)) : Object.keys(init.running));
      srv = new IpcServer(handlers, streams, () => ++clock); await srv.listen(); ctl = open('ctl'); await barrier();
    },
    async step(a: any) {
      const c = a.c !== undefined ? String(a.c) : null; let o: any = c ? cl[c] : null;
      switch (a.name) {
        case 'Connect': { o = cl[c!] = open(c!); o.open = []; await new Promise(r => o.s.once('connect', r)); await barrier(); break; }
        case 'Chunk': {
          const out: Buffer[] = []; const lines: any[] = [];
          if (o.part) {
            const rest = o.part.l.bytes.length - o.part.sent;
            if (!a.fin) { const n = Math.min(rest - 1, 1 + Math.floor(rng() * 3)); if (n > 0) { out.push(o.part.l.bytes.subarray(o.part.sent, o.part.sent + n)); o.part.sent += n; } }
            else { out.push(o.part.l.bytes.subarray(o.part.sent)); lines.push(o.part.l); o.part = null; }
          }
          for (const k of a.ks) { const l = makeLine(o, k); lines.push(l); out.push(l.bytes); }
          if (a.tail !== '-') { const l = makeLine(o, a.tail); const n = cutAt(l.bytes); out.push(l.bytes.subarray(0, n)); o.part = { l, sent: n }; }
          let imm = 100;
          for (const l of lines) {
            if (l.id === undefined) continue;
            if (['ok', 'okstream', 'strm'].includes(l.k)) { let id = 1; while (o.open.some((x: any) => x.sid === id)) id++; l.sid = id; o.open.push(l); } else l.sid = imm++;
            o.map.set(l.id, l);
          }
          const b = Buffer.concat(out); if (b.length) o.s.write(b);
          await barrier(); break;
        }
        case 'Work': case 'OrphanWork': {
          const l = a.name === 'Work' ? entry(o, a.i) : orphans[a.i - 1]; const r = runs.find(x => x.tag === l.tag && !x.done);
          if (!r) throw new Error('the handler was never called');
          const emit = (stream: string, data: any) => r.send({ id: 999, stream, data });
          if (a.how === 'emit') emit('progress', { tag: l.tag, text: l.req.params.text });
          else {
            r.done = true; if (a.name === 'Work') o.open.splice(a.i - 1, 1); else orphans.splice(a.i - 1, 1);
            if (a.how === 'fail') r.g.reject(raise(l.tag));
            else if (l.k === 'strm') { emit('progress', { tag: l.tag, text: l.req.params.text }); emit('done', { tag: l.tag }); r.g.resolve(undefined); }
            else r.g.resolve({ echo: r.p });
          }
          await barrier(); break;
        }
        case 'Disconnect': {
          orphans.push(...o.open); if (a.abrupt) o.s.destroy(); else o.s.end();
          const t = performance.now(); while (!o.closed && performance.now() - t < 5000) await settle(1);
          await barrier(); const late = o.in.length; delete cl[c!]; const h = heard(null); if (late) h.late = late; return h;
        }
        default: throw new Error(a.name);
      }
      return heard(c);
    },
    async project() {
      const running: any = {}; for (const c of slots) running[c] = cl[c] ? alive(cl[c]).map(r => { const l = [...cl[c].map.values()].find((x: any) => x.tag === r.tag) as any; return { id: l?.sid ?? 'unknown', k: l && (l.k === 'strm') === (r.k === 'strm') && JSON.stringify(r.p) === JSON.stringify(l.req.params) ? l.k : 'corrupt', told: r.signal ? r.signal.aborted : false }; }) : [];
      return {
        clients: srv.attachedClients().filter((x: any) => x.label !== 'ctl').map((x: any) => ({ c: x.pid !== undefined ? x.pid - 5000 : 0, label: x.label, last: x.lastMethod ?? '-' })),
        running: slots.every((c, i) => c === String(i + 1)) ? slots.map(c => running[c]) : running,
        orphans: orphans.map(l => { const r = runs.find(x => x.tag === l.tag && !x.done); return { k: l.k, told: r ? (r.signal ? r.signal.aborted : false) : 'gone' }; }),
      };
    },
    async close() { ctl?.s.destroy(); for (const o of Object.values(cl) as any[]) o.s.destroy(); await srv?.close(); },
  };
}
