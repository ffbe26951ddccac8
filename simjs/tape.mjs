// Choices of one simulated execution: drawn from a seed, recorded, replayable.
export class Prng {
  // splitmix64 on BigInt is slow; two 32-bit lanes (sfc32) are enough here
  constructor(seed) {
    let h = 0x9e3779b9 ^ 0;
    const s = String(seed);
    let a = 0x243f6a88, b = 0x85a308d3, c = 0x13198a2e;
    for (let i = 0; i < s.length; i++) {
      h = Math.imul(h ^ s.charCodeAt(i), 0x85ebca6b);
      h = (h << 13) | (h >>> 19);
      a = Math.imul(a ^ h, 0xcc9e2d51);
      b = (b + Math.imul(h, 0x1b873593)) | 0;
      c = Math.imul(c ^ (h >>> 7), 0xc2b2ae35);
    }
    this.a = a | 0; this.b = b | 0; this.c = c | 0; this.d = 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() {
    const t = (this.a + this.b + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  below(n) {
    if (n <= 1) return 0;
    if (n <= 0x100000000) return this.u32() % n;
    return (this.u32() * 0x200000 + (this.u32() >>> 11)) % n;
  }
  fill(b) {
    for (let i = 0; i < b.length; i++) b[i] = this.u32() & 255;
    return b;
  }
}
export class Tape {
  constructor(prng, fixed) {
    this.prng = prng;
    this.fixed = fixed;
    this.at = 0;
    this.rec = [];
  }
  static seeded(seed) { return new Tape(new Prng(seed), null); }
  static replay(v) { return new Tape(null, v); }
  choose(n) {
    let v;
    if (this.fixed) v = this.at < this.fixed.length ? this.fixed[this.at] % Math.max(1, n) : 0;
    else v = this.prng.below(n);
    this.at++;
    this.rec.push(v);
    return v;
  }
  range(lo, hi) { return lo + this.choose(hi - lo + 1); }
  chance(a, b) { return this.choose(b) >= b - a; }
  pick(l) { return l[this.choose(l.length)]; }
  shuffle(v) {
    for (let i = v.length - 1; i > 0; i--) {
      const j = this.choose(i + 1);
      [v[i], v[j]] = [v[j], v[i]];
    }
    return v;
  }
  prngFrom() { return new Prng(this.choose(0x7fffffff)); }
}
export class Fnv {
  // two 32-bit lanes
  constructor() { this.h = 0x811c9dc5; this.g = 0x01234567; }
  add(s) {
    let h = this.h, g = this.g;
    for (let i = 0; i < s.length; i++) {
      const c = s.charCodeAt(i);
      h = Math.imul(h ^ c, 0x01000193);
      g = Math.imul(g ^ (c + (h >>> 15)), 0x85ebca6b);
    }
    this.h = h; this.g = g;
  }
  hex() { return (this.h >>> 0).toString(16).padStart(8, "0") + (this.g >>> 0).toString(16).padStart(8, "0"); }
}
