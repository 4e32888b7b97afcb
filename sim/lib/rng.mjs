// Small deterministic PRNG (sfc32) and string hashing; every random choice of a run comes from here.
export function hashString(text, h = 0x811c9dc5) {
    for (let i = 0; i < text.length; i++) {
        h ^= text.charCodeAt(i);
        h = Math.imul(h, 0x01000193);
    }
    h ^= h >>> 16;
    h = Math.imul(h, 0x85ebca6b);
    h ^= h >>> 13;
    h = Math.imul(h, 0xc2b2ae35);
    h ^= h >>> 16;
    return h >>> 0;
}

export class Rng {
    constructor(seedText) {
        const s = String(seedText);
        this.a = hashString(s, 0x811c9dc5);
        this.b = hashString(s, 0x9747b28c);
        this.c = hashString(s, 0x1b873593);
        this.d = 1;
        for (let i = 0; i < 12; i++) this.u32();
    }
    u32() {
        const t = (((this.a + this.b) | 0) + this.d) | 0;
        this.d = (this.d + 1) | 0;
        this.a = this.b ^ (this.b >>> 9);
        this.b = (this.c + (this.c << 3)) | 0;
        this.c = (this.c << 21) | (this.c >>> 11);
        this.c = (this.c + t) | 0;
        return t >>> 0;
    }
    float() {
        return this.u32() / 4294967296;
    }
    int(n) {
        return Math.floor(this.float() * n);
    }
    range(lo, hi) {
        return lo + this.int(hi - lo + 1);
    }
    bool(p = 0.5) {
        return this.float() < p;
    }
    pick(list) {
        return list[this.int(list.length)];
    }
    /** table: { name: weight } */
    weighted(table) {
        let total = 0;
        for (const k in table) total += table[k];
        let x = this.float() * total;
        let last;
        for (const k in table) {
            if (table[k] <= 0) continue;
            last = k;
            x -= table[k];
            if (x < 0) return k;
        }
        return last;
    }
    shuffle(list) {
        const out = [...list];
        for (let i = out.length - 1; i > 0; i--) {
            const j = this.int(i + 1);
            [out[i], out[j]] = [out[j], out[i]];
        }
        return out;
    }
    sample(list, n) {
        return this.shuffle(list).slice(0, n);
    }
    /** swarm: a random subset of the table is switched off */
    swarm(table, keep = 0.75) {
        const out = {};
        let any = false;
        for (const k in table) {
            if (this.bool(keep)) {
                out[k] = table[k] * (0.25 + this.float() * 1.5);
                any = true;
            } else out[k] = 0;
        }
        return any ? out : { ...table };
    }
}
