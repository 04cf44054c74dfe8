/* Stand-in for the Emscripten header, so that the WebAssembly wrappers can be compiled to IR for analysis. */
#ifndef VERIF_EMSCRIPTEN_H
#define VERIF_EMSCRIPTEN_H
#define EMSCRIPTEN_KEEPALIVE __attribute__((used))
#endif
