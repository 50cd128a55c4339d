#!/bin/bash
# build.sh OUTDIR REPO : compiles the pool of REPO under the controlled scheduler
set -e
O=$1; R=$2; D=$(cd "$(dirname "$0")"; pwd)
mkdir -p $O
clang -O1 -g -w -fsanitize=address -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -c $R/include/cppad/cg/model/threadpool/pthread_pool.c -o $O/pool.o
A=()
for s in pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy \
  pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_create pthread_detach pthread_join pthread_self pthread_exit \
  pthread_setname_np prctl sched_yield sleep usleep nanosleep clock_nanosleep time clock_gettime gettimeofday sem_init sem_destroy sem_post sem_wait sem_trywait \
  malloc calloc realloc free fprintf printf fwrite puts fputs fflush exit; do A+=(--redefine-sym $s=sx_$s); done
objcopy "${A[@]}" $O/pool.o $O/pool_r.o
clang++ -std=c++17 -O1 -g -w -fsanitize=address $D/harness.cpp $O/pool_r.o -o $O/harness -lpthread
