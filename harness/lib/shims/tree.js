// A stand-in for @zk-kit/incremental-merkle-tree: all nodes of the filled part, level by level.
"use strict";
class IncrementalMerkleTree {
  constructor(hash, depth, zeroValue, arity = 2, leaves = []) {
    if (typeof hash !== "function") throw new TypeError("Parameter 'hash' is not a function");
    if (typeof depth !== "number") throw new TypeError("Parameter 'depth' is not a number");
    if (depth < 1 || depth > IncrementalMerkleTree.maxDepth) throw new Error("The tree depth must be between 1 and 32");
    if (leaves.length > arity ** depth) throw new Error(`The tree cannot contain more than ${arity ** depth} leaves`);
    this._hash = hash; this._depth = depth; this._arity = arity; this._zeroes = []; this._nodes = [];
    let z = zeroValue;
    for (let l = 0; l < depth; l++) {
      this._zeroes.push(z);
      this._nodes[l] = [];
      z = hash(new Array(arity).fill(z));
    }
    this._nodes[depth] = [z];
    for (const x of leaves) this.insert(x);
  }
  get root() { return this._nodes[this._depth][0]; }
  get depth() { return this._depth; }
  get leaves() { return this._nodes[0].slice(); }
  get zeroes() { return this._zeroes; }
  get arity() { return this._arity; }
  indexOf(leaf) { return this._nodes[0].indexOf(leaf); }
  _rise(node, index) {
    for (let l = 0; l < this._depth; l++) {
      this._nodes[l][index] = node;
      const first = index - (index % this._arity), ch = [];
      for (let i = 0; i < this._arity; i++) {
        const x = this._nodes[l][first + i];
        ch.push(x === undefined ? this._zeroes[l] : x);
      }
      node = this._hash(ch);
      index = Math.floor(index / this._arity);
    }
    this._nodes[this._depth][0] = node;
  }
  insert(leaf) {
    if (leaf === undefined) throw new TypeError("Parameter 'leaf' is not defined");
    if (this._nodes[0].length >= this._arity ** this._depth) throw new Error("The tree is full");
    this._rise(leaf, this._nodes[0].length);
  }
  delete(index) { this.update(index, this._zeroes[0]); }
  update(index, leaf) {
    if (typeof index !== "number") throw new TypeError("Parameter 'index' is not a number");
    if (index < 0 || index >= this._nodes[0].length) throw new Error("The leaf does not exist in this tree");
    this._rise(leaf, index);
  }
  createProof(index) {
    if (typeof index !== "number") throw new TypeError("Parameter 'index' is not a number");
    if (index < 0 || index >= this._nodes[0].length) throw new Error("The leaf does not exist in this tree");
    const leafIndex = index, siblings = [], pathIndices = [];
    for (let l = 0; l < this._depth; l++) {
      const pos = index % this._arity, first = index - pos;
      pathIndices.push(pos);
      siblings[l] = [];
      for (let i = 0; i < this._arity; i++) {
        if (i === pos) continue;
        const x = this._nodes[l][first + i];
        siblings[l].push(x === undefined ? this._zeroes[l] : x);
      }
      index = Math.floor(index / this._arity);
    }
    return { root: this.root, leaf: this._nodes[0][leafIndex], pathIndices, siblings };
  }
  verifyProof(proof) {
    if (!proof || typeof proof !== "object") throw new TypeError("Parameter 'proof' is not an object");
    let node = proof.leaf;
    for (let i = 0; i < proof.siblings.length; i++) {
      const ch = proof.siblings[i].slice();
      ch.splice(proof.pathIndices[i], 0, node);
      node = this._hash(ch);
    }
    return proof.root === node;
  }
}
IncrementalMerkleTree.maxDepth = 32;
module.exports = { IncrementalMerkleTree };
