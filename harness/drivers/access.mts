import * as clock from '../lib/clock.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const { DefaultAccessStore, DefaultAccessAuditLog } = await import(`${R}/src/shared/access.ts`);
const T0 = Date.UTC(2026, 0, 5, 9), CAP = 1000;
const V = ['/', 'var'], path = [V, ['/', 'var', '/'], ['/', 'var', '/', 'log'], ['/', 'var', '_archive'], ['/', 'var', '/', 'log', '/', 'a']], cloud = [['aws'], ['aws', ':'], ['aws', ':', 'rds'], ['gcp']];
const KEYS: Record<string, string[][]> = { path, cloud, two: [V, ['/', 'var', '/', 'log'], ['/', 'var', '_archive']], none: [], all: [...path, ...cloud, [], ['/']] };
export default async function create(ctx: any) {
  let store: any, log: any, other: any, t = 1, recs: any[] = [], shots: any[] = [], K: string[] = [], seqNo = 0, init0: any;
  const per = 250; // decisions per step: the log's limit is four steps away
  const map = ['', '/srv', '/опт'][ctx.flavour % 3]!;
  const str = (k: string, x: string[]) => (k === 'fs-path' ? map : '') + x.join('');
  // 'net': approvals are given under the prefix bucket's own name
  const kk = (k: string) => (k === 'net' ? 'network-host-prefix' : k);
  const tokens = (k: string, s: string): any => { let r = k === 'fs-path' ? s.slice(map.length) : s; const out: string[] = []; while (r) { const c = ['/', 'var', 'log', '_archive', 'a', 'aws', ':', 'rds', 'gcp'].filter(q => r.startsWith(q)).sort((p, q) => q.length - p.length)[0]; if (!c) return { s }; out.push(c); r = r.slice(c.length); } return out; };
  return {
    reset(init: any) {
      init0 = init;
      clock.install(T0); t = 1; store = new DefaultAccessStore(); log = new DefaultAccessAuditLog(); other = new DefaultAccessStore(); other.approve('elsewhere', 'x'); recs = []; shots = []; K = Object.keys(init.ok); seqNo = 0;
      for (const k of K) other.approvePrefix(kk(k), '');
    },
    step(a: any) {
      switch (a.name) {
        case 'Approve': store.approve(kk(a.k), str(a.k, a.x)); return 'ok';
        case 'ApprovePrefix': store.approvePrefix(kk(a.k), str(a.k, a.x)); return 'ok';
        case 'Revoke': store.revoke(kk(a.k), str(a.k, a.x)); return 'ok';
        case 'RevokePrefix': store.revokePrefix(kk(a.k), str(a.k, a.x)); return 'ok';
        case 'Tick': t++; clock.set(T0 + (t - 1) * 1000); return 'ok';
        case 'Record': { if (shots.length < 3) { const l = log.list(); shots.push([l, l.length, l[0], l[l.length - 1]]); } for (let i = 0; i < per; i++) { const e = { timestamp: Date.now(), toolId: `t${seqNo++}`, kind: 'fs-path', key: '/x', decision: a.d, severity: 'standard' }; log.record(e); recs.push(e); } return 'ok'; }
      }
      throw new Error(a.name);
    },
    project(a: any) {
      for (const [l, len, f, e] of shots) if (l.length !== len || l[0] !== f || l[len - 1] !== e) return { snapshotChanged: len };
      const l = log.list(); const want = recs.slice(-CAP); if (l.length !== want.length || l.some((e: any, i: number) => JSON.stringify(e) !== JSON.stringify(want[i]))) return { log: l.length, want: want.length, first: l[0], wantFirst: want[0] };
      const list: any[] = Array.from({ length: init0.list.length }, () => []);
      let prev = 0; for (const e of store.list()) { if (e.approvedAt < prev) return { unordered: store.list() }; prev = e.approvedAt; const k = K.find(k => (e.prefix && !kk(k).endsWith('-prefix') ? `${kk(k)}-prefix` : kk(k)) === e.kind); list[Math.round((e.approvedAt - T0) / 1000)]?.push({ k: k ?? e.kind, x: k ? tokens(k, e.key) : e.key, prefix: e.prefix, at: Math.round((e.approvedAt - T0) / 1000) + 1 }); }
      return { ok: Object.fromEntries(K.map(k => [k, KEYS[ctx.consts.keys]!.filter((x: string[]) => store.isApproved(kk(k), str(k, x)))])), list, log: Array.from({ length: l.length / per }, (_, i) => [l[i * per].decision, Math.round((l[i * per].timestamp - T0) / 1000) + 1]) };
    },
    sets: ['fs-path', 'cloud', 'connection', 'net', 'list[]'],
  };
}
