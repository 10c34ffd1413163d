from tp import *
def run(ck):
    analyse(ck, 'M12')
    ck.assumptions = ['std::mutex, std::condition_variable, std::deque, std::vector, std::thread and the heap algorithms do what the standard says', 'handles given to the pool are not null and are not resumed by anyone else', 'the pool outlives the calls that are made on it', 'delayed operations are decided under M13']
    ck.finish('typestate over every function that touches the state of the pool: post, try_dispatch, the awaiters of post and dispatch for both kinds of handles, work, create_threads, join, destruction, assignment, run and the body a thread starts with, both configurations',
              'shared state is only touched under the one mutex, and nothing is resumed, joined or called back under it; an operation is queued exactly once and a worker woken in the same critical section, or the caller is told to run it, which it is only on a thread of this pool; a worker takes from a queue known not to be empty exactly what it resumes next, sleeps only with nothing queued and something to wait for, and leaves only with no work and both queues empty; work is counted once and ends once; threads are given the state, not the movable pool, and every one is joined before the state dies')
if __name__ == '__main__': main(run, 'M12')
