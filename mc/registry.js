'use strict';
// What each check explores. `sweeps` run the program explorer over a corpus,
// `custom` runs another explorer; both tiers are listed.
const L = (depth, maxRuns = 400) => ({ depth, throws: 1, maxRuns });
const forms = { corpus: 'forms', quick: L(5), thorough: L(6, 1000) };
// TypeScript and JSX: constructs with a counterpart in plain JavaScript, and
// constructs the compiler turns into code of its own
const types = { corpus: 'types', quick: L(5), thorough: L(6, 1000) };
const elements = { corpus: 'elements', quick: L(5), thorough: L(6, 1000) };
const generated = { corpus: 'generated', quick: L(5), thorough: L(6, 1000) };
// uncommon constructs, sizes and far positions, programs instrumented already
const rare = { corpus: 'rare', quick: L(4, 100), thorough: L(6, 1000) };
const large = { corpus: 'large', quick: L(4, 12), thorough: L(4, 12) };
const foreign = { corpus: 'foreign', quick: L(4, 60), thorough: L(6, 400) };
const grid = { corpus: 'grid', quick: L(4, 60), thorough: L(5, 400) };
const using = { corpus: 'using', quick: L(4, 40), thorough: L(5, 400) };
const more = [rare, grid, large, foreign, using];
module.exports = {
  C01: { sweeps: [forms, types, elements, generated, ...more] },
  C02: { sweeps: [forms, types, elements, ...more] },
  C03: { sweeps: [forms, types, elements, ...more] },
  C04: { sweeps: [forms, types, elements, ...more] },
  C05: { sweeps: [forms, types, elements, { corpus: 'truth', quick: L(4), thorough: L(4) }, ...more] },
  C06: { sweeps: [{ corpus: 'forms', quick: L(4, 60), thorough: L(6, 1000) }, types, elements, generated, ...more, { corpus: 'hints', quick: L(3, 20), thorough: L(5, 200) }] },
  C07: { sweeps: [{ corpus: 'hints', quick: L(6), thorough: L(8, 4000) }, { corpus: 'tshints', quick: L(5), thorough: L(7, 2000) }] },
  C08: { sweeps: [{ corpus: 'methods', quick: L(5), thorough: L(7, 2000) }, { corpus: 'tsmethods', quick: L(5), thorough: L(6, 1000) }] },
  C09: { sweeps: [{ corpus: 'layout', quick: L(1), thorough: L(1) }, { corpus: 'typedlayout', quick: L(1), thorough: L(1) }, large] },
  C10: { custom: [{ module: './purity.js' }] },
  C11: { custom: [{ module: './history.js' }] },
  C12: { judge: './embed.js', sweeps: [{ corpus: 'embed', quick: L(1), thorough: L(1) }] },
  C13: { judge: './across.js', sweeps: [{ corpus: 'across', quick: L(1), thorough: L(1) }], custom: [{ module: './options.js' }] },
  C14: { custom: [{ module: './exclude.js' }] },
  C15: { custom: [{ module: './oxide.js', fn: 'json' }] },
  C16: { custom: [{ module: './oxide.js' }] },
  C17: { custom: [{ module: './oxide.js', fn: 'json' }] },
  C18: { custom: [{ module: './oxide.js', fn: 'json' }] },
  C19: { custom: [{ module: './oxide.js', fn: 'json' }] },
  C21: { judge: './lower.js', sweeps: [{ corpus: 'lower', quick: L(5), thorough: L(6, 1000) }, { corpus: 'lowergrid', quick: L(4, 40), thorough: L(5, 200) }] },
  C22: { judge: './places.js', sweeps: [{ corpus: 'places', quick: L(4, 16), thorough: L(6, 400) }] },
  C20: { sweeps: [forms, types, elements, generated, ...more] },
};
