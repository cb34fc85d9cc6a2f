// Stands for the compiled module; the harness supplies what an instance of it does.
export const wasmBytes = new Uint8Array([0, 97, 115, 109, 1, 0, 0, 0]);
