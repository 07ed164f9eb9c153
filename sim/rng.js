'use strict';
// Seeded generator: one seed is one exactly repeatable stream.
function hash32(str) {
    let h = 2166136261 >>> 0;
    for (let i = 0; i < str.length; i++) {
        h ^= str.charCodeAt(i);
        h = Math.imul(h, 16777619) >>> 0;
    }
    // final avalanche
    h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b) >>> 0;
    h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35) >>> 0;
    h ^= h >>> 16;
    return h >>> 0;
}

class Rng {
    constructor(seed) {
        this.s = new Uint32Array(4);
        const t = String(seed);
        for (let i = 0; i < 4; i++) this.s[i] = hash32(t + '/' + i) || 1;
        for (let i = 0; i < 8; i++) this.u32();
    }
    u32() {
        const s = this.s;
        let t = s[3];
        let x = s[0];
        s[3] = s[2]; s[2] = s[1]; s[1] = x;
        t ^= t << 11; t ^= t >>> 8;
        s[0] = (t ^ x ^ (x >>> 19)) >>> 0;
        return s[0];
    }
    // integer in [0, n)
    int(n) { return n <= 0 ? 0 : Math.floor((this.u32() / 4294967296) * n); }
    // integer in [a, b]
    range(a, b) { return a + this.int(b - a + 1); }
    bool(p = 0.5) { return this.u32() / 4294967296 < p; }
    pick(list) { return list[this.int(list.length)]; }
    // weighted pick: [[weight, value], ...]
    wpick(list) {
        let sum = 0;
        for (const [w] of list) sum += w;
        let x = (this.u32() / 4294967296) * sum;
        for (const [w, v] of list) {
            x -= w;
            if (x < 0) return v;
        }
        return list[list.length - 1][1];
    }
    shuffle(list) {
        const l = list.slice();
        for (let i = l.length - 1; i > 0; i--) {
            const j = this.int(i + 1);
            [l[i], l[j]] = [l[j], l[i]];
        }
        return l;
    }
    fork(label) { return new Rng(this.u32() + ':' + label); }
}

module.exports = { Rng, hash32 };
