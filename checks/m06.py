from scope import *
def run(ck):
    irs = ck.ir('m06.cpp', PRIMS)
    for cfg, f in irs.items():
        for N in 'ivrt': analyse(ck, f, cfg, N, {'M06'})
    ck.assumptions = ['a handle is dropped before the scope it belongs to goes away (documented lifetime tie)', 'an awaiter that was created is awaited']
    ck.finish('enumeration of the reachable states of the shared word with typestate dataflow over the IR of completion, await, drop and move assignment for each state; scoped_task<int>, <void>, <int&>, <opaque class>, both configurations and backends',
              'the side that finds the other one announced acts, exactly once: completion continues the awaiting coroutine or destroys its own frame if the handle was dropped; a drop that comes second destroys the frame; the first side touches nothing afterwards; awaiter owns and destroys the frame it took')
if __name__ == '__main__': main(run, 'M06')
