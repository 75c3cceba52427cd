// Drives the daemon clients against a scripted daemon on a real unix socket in the scratch HOME.
import net from 'node:net';
import { mkdirSync, rmSync, writeFileSync } from 'node:fs';
import { dirname } from 'node:path';
import { settle, rngFrom, outcome } from '../lib/util.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const { rpc } = await import(`${R}/src/cli/client.ts`);
const ds = await import(`${R}/src/mcp/daemon-stream.ts`);
const { PATHS } = await import(`${R}/src/shared/paths.ts`);
const SOCK: string = PATHS.sockFile;
if (!SOCK.startsWith(process.env.HOME!)) throw new Error('socket outside the scratch home');
mkdirSync(dirname(SOCK), { recursive: true });
const TEXT = ['añb', '日本語 テキスト', 'smile 😀 end', 'plain', 'é\u2028ü'];

export default async function create(ctx: any) {
  const rng = rngFrom(ctx.seed * 17 + 3); const fl: number = ctx.flavour; const pick = <T,>(a: T[]): T => a[Math.floor(rng() * a.length)]!;
  let srv: net.Server; let calls: any[] = []; let conns: any[] = []; let ping: any; let n = 0; const ids = new Set<number>();
  const listen = () => new Promise<void>(r => { rmSync(SOCK, { force: true }); srv = net.createServer(s => { const c: any = { s, buf: '', reqs: [], ended: false, closed: false }; s.setEncoding('utf8'); s.on('data', (d: any) => { c.buf += d; const l = c.buf.split('\n'); c.buf = l.pop(); for (const x of l) { const q = JSON.parse(x); if (q.ping) { s.write('pong\n'); c.ping = true; } else c.reqs.push(q); } }); s.on('end', () => { c.ended = true; }); s.on('close', () => { c.closed = true; }); s.on('error', () => {}); conns.push(c); }); srv.listen(SOCK, r); });
  const connectPing = () => new Promise<void>(r => { ping = { s: net.createConnection(SOCK), got: 0 }; ping.s.on('data', (d: Buffer) => { ping.got += d.length; }); ping.s.on('error', () => {}); ping.s.once('connect', () => r()); });
  async function barrier() { for (let k = 0; k < 3; k++) { const w = ping.got + 5; ping.s.write('{"ping":1}\n'); const t = performance.now(); while (ping.got < w) { if (performance.now() - t > 10000) throw new Error('barrier'); await settle(1); } await settle(2); } }
  const UN: Record<string, any[]> = {
    unary: [
      { m: 'workflow.run.start', f: (d: any, t: string) => ds.startRun({ workflow: 'stub', focus: t, repo: '/r/' + t }, d), chk: (p: any, t: string) => p.workflow === 'stub' && p.focus === t && p.repo === '/r/' + t },
      { m: 'workflow.run.poll', f: (d: any, t: string) => ds.pollRun(t, 7, d), chk: (p: any, t: string) => p.runId === t && p.cursor === 7 },
      { m: 'workflow.run.abort', f: (d: any, t: string) => ds.abortRun(t, d), chk: (p: any, t: string) => p.runId === t },
      { m: 'workflow.approve', f: (d: any, t: string) => ds.approveWorkflow({ repo: t, epicHash: 'e' }, d), chk: (p: any, t: string) => p.repo === t && p.epicHash === 'e' },
      { m: 'docgen.generate', f: (d: any, t: string) => ds.docgenGenerate({ docType: t }, d), chk: (p: any, t: string) => p.docType === t },
      { m: 'docgen.list', f: (d: any) => ds.docgenList(d), chk: () => true },
    ],
    graceful: [
      { m: 'codeReview.grounding', f: (d: any, t: string) => ds.fetchCodeReviewGrounding({ repo: t, epicHash: 'e', storyId: 's' }, d), chk: (p: any, t: string) => p.repo === t && p.storyId === 's', res: (x: any) => ({ ok: true, grounding: x }), un: (r: any) => r.grounding },
      { m: 'codeReview.freshness', f: (d: any, t: string) => ds.fetchCodeReviewFreshness({ repo: t, epicHash: 'e', storyId: 's', changedFiles: ['a'] }, d), chk: (p: any, t: string) => p.repo === t && p.changedFiles?.[0] === 'a', res: (x: any) => ({ isProcessing: true, staleFiles: [x.text] }), un: (r: any) => ({ text: r.staleFiles[0], k: null }) },
    ],
  };
  function begin(style: string, how: string) {
    const c: any = { style, how, tag: `t${++n}-${pick(TEXT)}`, fwd: [], part: null, ac: new AbortController(), k: 0, sent: [], expectReq: how === 'up' };
    const path = fl === 2 ? undefined : () => { c.sock = net.createConnection(SOCK); return c.sock; };
    const deps = path ? { connect: path } : {};
    if (how === 'preaborted') c.ac.abort();
    let p: Promise<any>;
    if (style === 'stream') p = ds.runWorkflowStream({ workflow: 'stub', focus: c.tag }, { signal: c.ac.signal, onFrame: (k: string, d: any) => { c.fwd.push({ k, d }); } }, deps);
    else if (style === 'rpc') { c.fn = { m: 'x.rpc', chk: (q: any, t: string) => q.tag === t }; p = path ? rpc('x.rpc', { tag: c.tag }, path) : rpc('x.rpc', { tag: c.tag }); }
    else { c.fn = pick(UN[style]!); p = c.fn.f(deps, c.tag); }
    if (how === 'abortearly') c.ac.abort();
    let count = 0; p.then(() => count++, () => count++); c.o = outcome(p); return c;
  }
  const ERR = (c: any) => `fehlgeschlagen ${c.tag} ☠`;
  function line(c: any, l: string): Buffer {
    const id = c.reqId ?? 1; const j = (o: any) => Buffer.from(JSON.stringify(o) + '\n'); const k = ++c.k; const data = { text: pick(TEXT), k: c.style === 'graceful' ? null : k };
    switch (l) {
      case 'blank': return Buffer.from(pick(['\n', '  \n', '\r\n']));
      case 'garbage': return Buffer.from(pick(['{"id":1,"resul\n', 'x😀\n', '}{\n']));
      case 'scalar': return Buffer.from(c.style === 'stream' ? pick(['null\n', '3\n', '"x"\n']) : 'null\n');
      case 'progress': case 'delta': c.sent.push({ k: l, d: data }); return j({ id, stream: l, data });
      case 'done': c.res ??= []; c.res.push(data); return j({ id, stream: 'done', data });
      case 'error': return c.style === 'stream' ? j({ id, stream: 'error', data: { error: ERR(c), recoverable: true } }) : j({ id, error: ERR(c) });
      case 'errbare': return j(pick([{ id, stream: 'error' }, { id, stream: 'error', data: {} }]));
      case 'refused': return j({ id, error: ERR(c) });
      case 'other': return j({ id, stream: pick(['gate', 'heartbeat', 'checkpoint']), data });
      case 'result': c.res ??= []; c.res.push(data); return j({ id, result: c.fn.res ? c.fn.res(data) : data });
      case 'void': c.res ??= []; c.res.push(undefined); return j({ id });
      case 'errempty': return j({ id, error: '' });
    }
    throw new Error(l);
  }
  const cutAt = (b: Buffer) => { const mb: number[] = []; for (let i = 1; i < b.length - 1; i++) if ((b[i]! & 0xC0) === 0x80) mb.push(i); const r = rng(); if (mb.length && r < 0.5) return pick(mb); if (r < 0.65) return b.length - 1; if (r < 0.75) return 1; return 1 + Math.floor(rng() * (b.length - 1)); };
  const out = (c: any): string => {
    const o = c.o; if (o.s === 'pending') return 'pending';
    let err: string | null = null;
    if (o.s === 'err') err = o.e instanceof Error ? o.e.message : 'not an Error';
    else if (c.style === 'graceful' && o.v?.ok === false) err = o.v.reason;
    if (err === null) { const v = c.style === 'graceful' ? c.fn.un(o.v) : o.v; const exp = c.res?.[0]; return JSON.stringify(v) === JSON.stringify(exp) ? 'ok' : 'corrupt'; }
    if (/not running/.test(err)) return 'down';
    if (/abort/i.test(err)) return 'aborted';
    if (err === ERR(c) || (err === '' && c.empty)) return 'daemon';
    return 'err';
  };
  await listen(); await connectPing(); await barrier();
  return {
    crashes: true,
    async reset() { for (const c of calls) { c.ac.abort(); c.sock?.destroy(); } for (const c of conns) if (!c.ping) c.s.destroy(); calls = []; await barrier(); conns = conns.filter(c => !c.closed); },
    async step(a: any) {
      const c = a.i ? calls[a.i - 1] : null;
      switch (a.name) {
        case 'Call': {
          const before = new Set(conns);
          if (a.how === 'noent' || a.how === 'refused') {
            await new Promise<void>(r => { ping.s.destroy(); for (const x of conns) if (x.ping) x.s.destroy(); rmSync(SOCK, { force: true }); r(); });
            if (a.how === 'refused') writeFileSync(SOCK, '');
            const x = begin(a.style, a.how); calls.push(x); const t = performance.now(); while (x.o.s === 'pending' && performance.now() - t < 1000) await settle(1);
            // the listening socket lost its name: give the scripted daemon a new one (existing connections live on)
            srv.close(); await listen(); await connectPing(); await barrier(); return;
          }
          const x = begin(a.style, a.how); calls.push(x);
          await barrier(); x.peer = conns.find(y => !before.has(y)); x.reqId = x.peer?.reqs[0]?.id; return;
        }
        case 'Recv': {
          const outb: Buffer[] = [];
          if (c.part) { const rest = c.part.b.length - c.part.n; if (!a.fin) { const k = Math.min(rest - 1, 1 + Math.floor(rng() * 3)); if (k > 0) { outb.push(c.part.b.subarray(c.part.n, c.part.n + k)); c.part.n += k; } } else { outb.push(c.part.b.subarray(c.part.n)); c.part = null; } }
          for (const l of a.ls) { if (l === 'errempty') c.empty = true; outb.push(line(c, l)); }
          if (a.tail !== '-') { if (a.tail === 'errempty') c.empty = true; const b = line(c, a.tail); const k = cutAt(b); outb.push(b.subarray(0, k)); c.part = { b, n: k }; }
          const b = Buffer.concat(outb); if (b.length && !c.peer.s.destroyed && c.peer.s.writable) c.peer.s.write(b);
          await barrier(); return;
        }
        case 'Hangup': if (fl === 1) c.peer.s.destroy(); else c.peer.s.end(); await barrier(); return;
        case 'Break': if (c.sock) c.sock.destroy(Object.assign(new Error('socket broke'), { code: 'EIO' })); else c.peer.s.destroy(); await barrier(); return;
        case 'Abort': c.ac.abort(); await barrier(); return;
      }
      throw new Error(a.name);
    },
    async project() {
      return calls.map(c => {
        const q = c.peer?.reqs ?? []; const r = q[0];
        const good = q.length === 1 && r.method === (c.style === 'stream' ? 'workflow.run' : c.fn.m) && typeof r.id === 'number' && (c.style === 'stream' ? r.stream === true && r.params.focus === c.tag && r.params.workflow === 'stub' : !r.stream && c.fn.chk(r.params, c.tag));
        const asked = c.expectReq ? (good ? true : { bad: q }) : (q.length > 0);
        return { style: c.style, out: out(c), fwd: c.fwd.map((f: any, i: number) => JSON.stringify(f) === JSON.stringify(c.sent[i]) ? f.k : 'corrupt'), asked, told: c.peer && c.expectReq && c.ac.signal.aborted && out(c) === 'aborted' ? c.peer.closed || c.peer.ended : false };
      });
    },
    async close() { for (const c of calls) c.ac.abort(); ping.s.destroy(); for (const c of conns) c.s.destroy(); srv.close(); },
  };
}
