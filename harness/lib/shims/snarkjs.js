// The witness generator: whatever the harness has put in its place.
"use strict";
module.exports = { wtns: { calculate: (...a) => globalThis.__vt.calculate(...a) } };
