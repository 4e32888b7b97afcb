// Hands every request of the process to its parent; clock offsets come from the parent as well.
let next = 0;
const open = new Map();
let offset = 0;
const RealDate = Date;
globalThis.Date = class extends RealDate {
    constructor(...args) {
        if (args.length) super(...args);
        else super(RealDate.now() + offset);
    }
    static now() {
        return RealDate.now() + offset;
    }
};
process.on('message', (m) => {
    if (m.clock !== undefined) {
        offset += m.clock;
        return;
    }
    const { resolve, reject } = open.get(m.id);
    open.delete(m.id);
    if (m.fail) reject(new TypeError(m.fail));
    else resolve({ ok: m.status >= 200 && m.status < 300, status: m.status, text: async () => m.body, json: async () => JSON.parse(m.body) });
});
process.channel?.unref?.();
globalThis.fetch = (href) =>
    new Promise((resolve, reject) => {
        const id = ++next;
        open.set(id, { resolve, reject });
        process.send({ id, href: String(href) });
    });
