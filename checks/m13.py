from tp import *
def run(ck):
    analyse(ck, 'M13')
    ck.assumptions = ['std::push_heap, pop_heap, make_heap and the stop callbacks do what the standard says', 'posting and running operations is decided under M12', 'the lock discipline of the state is decided under M12']
    ck.finish('typestate over schedule_after, post_after, its awaiters, the cancellation callback found from the registration, cancel_delay_op, run and the body a thread starts with, both configurations',
              'deadline = now + delay; every delayed operation gets its own number, registers with its own token and number before it is queued and without the lock, and looks again for a stop request under the lock in which it is queued; the callback looks at every queued operation, makes exactly the one with its number due now, restores the heap and wakes all workers; the heap is ordered by deadline, restored before every unlock, and its front is taken only once its deadline passed; workers sleep no longer than the earliest deadline, by a copy of it')
if __name__ == '__main__': main(run, 'M13')
