// property id -> world module (loaded on demand)
const table = {
    O01: 'overlay', O02: 'overlay', O03: 'overlay', O04: 'overlay', O05: 'overlay', O06: 'toast', O07: 'scrolllock', O08: 'bound', O09: 'focus',
    P01: 'lifecycle', P02: 'floating', P03: 'floating',
    S01: 'theme', S02: 'layout', S03: 'shadow', S04: 'appearance', D04: 'expand', D05: 'image', D06: 'deferred', D01: 'table', D02: 'table', D03: 'indexed',
    F01: 'forms', F02: 'forms', F03: 'forms', F04: 'toggles', F05: 'forms', F06: 'search', F07: 'select', F08: 'select', F09: 'feedback', F10: 'files', F11: 'select', F12: 'choices',
    M01: 'mcp', M02: 'mcp', M03: 'mcp', M04: 'mcp', M05: 'mcp', M06: 'mcp',
};
export const properties = Object.keys(table);
export async function loadWorld(property) {
    if (!table[property]) return null;
    const module = await import(`./${table[property]}.mjs`);
    return module.world(property);
}
