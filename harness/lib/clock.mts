// Replaces Date so that the driver decides what time it is. Timers stay real unless fakeTimers is used.
const RealDate = Date;
let nowMs: number | null = null;
class FakeDate extends RealDate {
  constructor(...a: any[]) { if (a.length === 0 && nowMs !== null) super(nowMs); else super(...(a as [])); }
  static override now(): number { return nowMs ?? RealDate.now(); }
}
export function install(t0: number): void { nowMs = t0; (globalThis as any).Date = FakeDate; }
export function set(t: number): void { nowMs = t; }
export function get(): number { return nowMs ?? RealDate.now(); }
export function advance(ms: number): void { nowMs = (nowMs ?? RealDate.now()) + ms; }
export function uninstall(): void { nowMs = null; (globalThis as any).Date = RealDate; }
