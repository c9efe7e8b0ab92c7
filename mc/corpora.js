'use strict';
const corpus = require('./corpus.js');
const table = { forms: corpus.forms, hints: require('./hints.js').hints, methods: require('./methods.js').methods, truth: require('./truth.js').truth, layout: require('./layout.js').layout };
exports.table = table;
exports.get = (name, tier) => table[name](tier);
exports.table.embed = require('./embed.js').embed;
Object.assign(exports.table, (({ types, generated, elements }) => ({ types, generated, elements }))(require('./ts.js')));
exports.table.lower = (tier) => require('./lower.js').programs(tier);
exports.table.rare = require('./rare.js').rare;
exports.table.large = require('./large.js').large;
exports.table.foreign = require('./foreign.js').foreign;
exports.table.grid = require('./grid.js').grid;
exports.table.lowergrid = (tier) => require('./lower.js').gridded(tier);
exports.table.tshints = require('./hints.js').tshints;
exports.table.tsmethods = require('./methods.js').tsmethods;
exports.table.typedlayout = require('./layout.js').typedlayout;
exports.table.places = (tier) => require('./places.js').places(tier);
exports.table.using = require('./using.js').using;
exports.table.across = (tier) => require('./across.js').across(tier);
