From eddab0de5c05b2336de39de804e3a3a4b417237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 01/93] fix: thread pool never executed static work groups
 after a change of strategy

Pending work groups were only pulled while the strategy was still static:
workers kept polling and waiting for the pool never returned.
---
 include/cppad/cg/model/threadpool/pthread_pool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 5ecf34c..6d815c5 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -1255,8 +1255,8 @@ static WorkGroup* jobqueue_pull(ThPool* thpool,
     int i;
     JobQueue* queue = thpool->jobqueue;
 
-    if (schedule_strategy == SCHED_STATIC && queue->group_front != NULL) {
-        // STATIC
+    if (queue->group_front != NULL) {
+        // STATIC (the strategy might have been changed after these groups were created)
         group = queue->group_front;
 
         queue->group_front = group->prev;
-- 
2.43.0


From 27718cb4f90b47ca31d545ac87d1e505a9048af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 02/93] fix: guided scheduling read past the last job in the
 queue

The list of jobs is NULL terminated: when all remaining jobs fit in the target
duration (rounding of the total time, large maximum group work) the pool crashed.
---
 include/cppad/cg/model/threadpool/pthread_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 6d815c5..f4227d3 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -1330,7 +1330,7 @@ static WorkGroup* jobqueue_pull(ThPool* thpool,
                     break;
                 }
                 job = job->prev;
-            } while (job != queue->front);
+            } while (job != NULL);
 
             if (cppadcg_pool_verbose) {
                 fprintf(stdout, "jobqueue_pull(): Thread %i given a work group with %i jobs for %e s (target: %e s)\n", id, group->size, duration, target_duration);
-- 
2.43.0


From b0947a2162b97f3b08c677d0f477c2c312bbad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 03/93] fix: thread pool released while its threads were still
 using it

A thread decreased the number of alive threads and only then released the mutex,
which could already have been freed by the thread destroying the pool. Detached
threads could also still be executing code of a library being unloaded.
---
 include/cppad/cg/model/threadpool/pthread_pool.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index f4227d3..8f7d013 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -902,6 +902,12 @@ static void thpool_destroy(ThPool* thpool) {
         sleep(1);
     }
 
+    /* Threads might still be leaving (e.g., releasing a mutex) after they are no longer alive */
+    int n;
+    for (n = 0; n < threads_total; n++) {
+        pthread_join(thpool->threads[n]->pthread, NULL);
+    }
+
     /* cleanup current work groups */
     thpool_cleanup(thpool);
 
@@ -910,7 +916,6 @@ static void thpool_destroy(ThPool* thpool) {
     free(thpool->jobqueue);
 
     /* Deallocs */
-    int n;
     for (n = 0; n < threads_total; n++) {
         thread_destroy(thpool->threads[n]);
     }
@@ -947,7 +952,6 @@ static int thread_init(ThPool* thpool,
     (*thread)->processed_groups = NULL;
 
     pthread_create(&(*thread)->pthread, NULL, (void*) thread_do, (*thread));
-    pthread_detach((*thread)->pthread);
     return 0;
 }
 
-- 
2.43.0


From 0455a2670d2d7c33bd70943ea113e955fe7b4c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 04/93] fix: out of bounds access when the number of threads is
 reduced with static scheduling

The assignment of jobs to threads is kept between calls, but the pool might have
been recreated with fewer threads.
---
 include/cppad/cg/model/threadpool/pthread_pool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 8f7d013..520670e 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -657,7 +657,15 @@ static int jobqueue_push_static_jobs(ThPool* thpool,
     }
 
 
-    if (nJobs > 0 && (lastElapsedChanged || jobs2thread[0] < 0)) {
+    // the saved information might have been created for a higher number of threads
+    for (j = 0; j < nJobs; ++j) {
+        if (jobs2thread[j] < 0 || jobs2thread[j] >= num_threads) {
+            lastElapsedChanged = 1;
+            break;
+        }
+    }
+
+    if (nJobs > 0 && lastElapsedChanged) {
         durations = (float*) malloc(num_threads * sizeof(float));
         if (durations == NULL) {
             fprintf(stderr, "jobqueue_push_static_jobs(): Could not allocate memory\n");
-- 
2.43.0


From b97b985e69d1583193c5233a611146c17d8a33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 05/93] fix: pending jobs were not released after an empty work
 group at shutdown

---
 include/cppad/cg/model/threadpool/pthread_pool.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 520670e..91c3fe9 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -1129,18 +1129,14 @@ static int jobqueue_init(ThPool* thpool) {
 /* Clear the queue */
 static void jobqueue_clear(ThPool* thpool) {
     WorkGroup* group;
-    int size;
 
     do {
         group = jobqueue_pull(thpool, -1);
-        if (group == NULL) {
-            size = 0;
-        } else {
-            size = group->size;
+        if (group != NULL) {
             free(group->jobs);
             free(group);
         }
-    } while (size > 0);
+    } while (group != NULL);
 
     thpool->jobqueue->front = NULL;
     thpool->jobqueue->rear = NULL;
-- 
2.43.0


From 89b6cd25ac5f7e2795cbaf1c44f08f5cc126d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 06/93] fix: work groups leaked when verbose was disabled
 before waiting for the thread pool

---
 .../cppad/cg/model/threadpool/pthread_pool.c    | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/cppad/cg/model/threadpool/pthread_pool.c b/include/cppad/cg/model/threadpool/pthread_pool.c
index 91c3fe9..dee2891 100644
--- a/include/cppad/cg/model/threadpool/pthread_pool.c
+++ b/include/cppad/cg/model/threadpool/pthread_pool.c
@@ -827,21 +827,22 @@ void thpool_cleanup(ThPool* thpool) {
     WorkGroup* workGroup;
     WorkGroup* workGroupPrev;
 
-    if (!cppadcg_pool_verbose) {
-        return;
-    }
+    // there can be groups to release even if verbose was disabled in the meantime
+    int verbose = cppadcg_pool_verbose;
 
     for (int j = 0; j < thpool->num_threads; ++j) {
         thread = thpool->threads[j];
 
         workGroup = thread->processed_groups;
         while (workGroup != NULL) {
-            timespec_diff(&workGroup->endTime, &workGroup->startTime, &diffTime);
-            fprintf(stdout, "# Thread %i, Group %i, started at %ld.%.9ld, ended at %ld.%.9ld, elapsed %ld.%.9ld, executed %i jobs\n",
-                    thread->id, gid, workGroup->startTime.tv_sec, workGroup->startTime.tv_nsec, workGroup->endTime.tv_sec, workGroup->endTime.tv_nsec, diffTime.tv_sec,
-                    diffTime.tv_nsec, workGroup->size);
+            if (verbose) {
+                timespec_diff(&workGroup->endTime, &workGroup->startTime, &diffTime);
+                fprintf(stdout, "# Thread %i, Group %i, started at %ld.%.9ld, ended at %ld.%.9ld, elapsed %ld.%.9ld, executed %i jobs\n",
+                        thread->id, gid, workGroup->startTime.tv_sec, workGroup->startTime.tv_nsec, workGroup->endTime.tv_sec, workGroup->endTime.tv_nsec, diffTime.tv_sec,
+                        diffTime.tv_nsec, workGroup->size);
+            }
 
-            for (int i = 0; i < workGroup->size; ++i) {
+            for (int i = 0; verbose && i < workGroup->size; ++i) {
                 Job* job = &workGroup->jobs[i];
 
                 timespec_diff(&job->endTime, &job->startTime, &diffTime);
-- 
2.43.0


From ee99626bf884219b143d135de7ed3fc30e81f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:54 +0000
Subject: [PATCH 07/93] fix: zero the dependents also when no operation is
 generated

---
 include/cppad/cg/lang/c/language_c.hpp | 30 +++++++++++++-------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 11ee40d..c06573b 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -786,6 +786,21 @@ protected:
             localFuncNames.reserve(variableOrder.size() / _maxAssignmentsPerFunction);
         }
 
+        if (_info->zeroDependents) {
+            // zero initial values
+            for (size_t i = 0; i < depArg.size(); i++) {
+                const FuncArgument& a = depArg[i];
+                if (a.array) {
+                    _code << _indentation << "for(i = 0; i < " << _dependent->size() << "; i++) " << a.name << "[i]";
+                } else {
+                    _code << _indentation << _nameGen->generateDependent(i);
+                }
+                _code << " = ";
+                printParameter(Base(0.0));
+                _code << ";\n";
+            }
+        }
+
         /**
          * non-constant variables
          */
@@ -808,21 +823,6 @@ protected:
             /**
              * Source code generation magic!
              */
-            if (_info->zeroDependents) {
-                // zero initial values
-                for (size_t i = 0; i < depArg.size(); i++) {
-                    const FuncArgument& a = depArg[i];
-                    if (a.array) {
-                        _code << _indentation << "for(i = 0; i < " << _dependent->size() << "; i++) " << a.name << "[i]";
-                    } else {
-                        _code << _indentation << _nameGen->generateDependent(i);
-                    }
-                    _code << " = ";
-                    printParameter(Base(0.0));
-                    _code << ";\n";
-                }
-            }
-
             size_t assignCount = 0;
             for (size_t i = 0; i < variableOrder.size(); ++i) {
                 Node* it = variableOrder[i];
-- 
2.43.0


From 08b156b301875aee5533a4a9c72264887dcb10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 08/93] fix: reset of the code handler leaves no data of the
 deleted nodes behind

---
 include/cppad/cg/code_handler_impl.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index c4b8217..4b450b6 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -56,6 +56,7 @@ CodeHandler<Base>::CodeHandler(size_t varCount) :
 template<class Base>
 inline CodeHandler<Base>::~CodeHandler() {
     reset();
+    deleteManagedNodes(0, _codeBlocks.size());
 
     for (auto* v : _managedVectors) {
         v->handler_ = nullptr;
@@ -491,11 +492,13 @@ size_t CodeHandler<Base>::getTemporarySparseArraySize() const {
 
 template<class Base>
 void CodeHandler<Base>::reset() {
-    for (Node* n : _codeBlocks) {
-        delete n;
-    }
-    _codeBlocks.clear();
+    deleteManagedNodes(0, _codeBlocks.size()); // also clears the vectors with information on nodes
     _independentVariables.clear();
+    _alteredNodes.clear();
+    _variableDependencies.clear();
+    _variableOrder.clear();
+    _scopedVariableOrder.resize(1);
+    _scopedVariableOrder[0].clear();
     _idCount = 1;
     _idArrayCount = 1;
     _idSparseArrayCount = 1;
@@ -504,6 +507,10 @@ void CodeHandler<Base>::reset() {
     _loops.reset();
 
     _used = false;
+
+    // the auxiliary index nodes were also deleted
+    _auxIndexI = makeIndexDclrNode("i");
+    _auxIterationIndexOp = makeIndexNode(*_auxIndexI);
 }
 
 template<class Base>
-- 
2.43.0


From 0103ac9acb7da9630123088d2b09871de9a6eabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:57 +0000
Subject: [PATCH 09/93] fix: variable names given by a source generation do not
 leak into later ones

---
 include/cppad/cg/code_handler_impl.hpp | 26 +++++++++++++++++++++++++-
 include/cppad/cg/lang/c/language_c.hpp | 21 ++++++++-------------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 4b450b6..e35fc59 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -445,7 +445,31 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
                                                                                           _totalUseCount, _scope, *_auxIterationIndexOp,
                                                                                           _zeroDependents));
 
-    lang.generateSourceCode(out, std::move(_info));
+    // the names given to nodes by the language are only valid for this source
+    std::map<const Node*, std::string> originalNames;
+    for (const Node* node : _codeBlocks) {
+        if (node->getName() != nullptr)
+            originalNames[node] = *node->getName();
+    }
+    auto restoreNames = [&]() {
+        for (Node* node : _codeBlocks) {
+            if (node->getName() != nullptr) {
+                auto itName = originalNames.find(node);
+                if (itName != originalNames.end())
+                    node->setName(itName->second);
+                else
+                    node->clearName();
+            }
+        }
+    };
+
+    try {
+        lang.generateSourceCode(out, std::move(_info));
+    } catch (...) {
+        restoreNames();
+        throw;
+    }
+    restoreNames();
 
     /**
      * clean-up
diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index c06573b..445a895 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -327,20 +327,15 @@ public:
                 _ss << _spaces << _baseTypeName << " " << tmpArg[0].name << "[" << size << "];\n";
             }
         } else if (_temporary.size() > 0) {
+            bool first = true;
             for (const auto& p : _temporary) {
-                Node* var = p.second;
-                if (var->getName() == nullptr) {
-                    var->setName(_nameGen->generateTemporary(*var, getVariableID(*var)));
-                }
-            }
-
-            Node* var1 = _temporary.begin()->second;
-            const std::string& varName1 = *var1->getName();
-            _ss << _spaces << _baseTypeName << " " << varName1;
-
-            typename std::map<size_t, Node*>::const_iterator it = _temporary.begin();
-            for (it++; it != _temporary.end(); ++it) {
-                _ss << ", " << *it->second->getName();
+                const Node* var = p.second;
+                _ss << (first ? _spaces + _baseTypeName + " " : std::string(", "));
+                if (var->getName() != nullptr)
+                    _ss << *var->getName();
+                else
+                    _ss << _nameGen->generateTemporary(*var, getVariableID(*var)); // source already generated
+                first = false;
             }
             _ss << ";\n";
         }
-- 
2.43.0


From 7129a99e74d26ee9023d5e05516ab39740a47202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 10/93] fix: constant dependents are shown in DOT graphs whose
 parameter nodes are not combined

---
 include/cppad/cg/lang/dot/language_dot.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/lang/dot/language_dot.hpp b/include/cppad/cg/lang/dot/language_dot.hpp
index a7c67c8..a07d07a 100644
--- a/include/cppad/cg/lang/dot/language_dot.hpp
+++ b/include/cppad/cg/lang/dot/language_dot.hpp
@@ -426,8 +426,8 @@ protected:
                         commentWritten = true;
                     }
 
-                    _code << makeNodeName(dependent[i].getValue());
-                    _code << " -> y" << i;
+                    std::string name = printParameter(dependent[i].getValue());
+                    _code << name << " -> y" << i;
                     _code << _endline;
                 }
             } else if (dependent[i].getOperationNode()->getOperationType() == CGOpCode::Inv) {
-- 
2.43.0


From 1b933ef19f66faa5c0bc6a0db7593c060c0494be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 11/93] fix: evaluators support acosh, asinh, atanh, erf, erfc,
 expm1 and log1p

---
 include/cppad/cg/evaluator/evaluator.hpp      | 66 +++++++++++++++++++
 .../cppad/cg/evaluator/evaluator_adolc.hpp    | 35 ++++++++++
 2 files changed, 101 insertions(+)

diff --git a/include/cppad/cg/evaluator/evaluator.hpp b/include/cppad/cg/evaluator/evaluator.hpp
index 8345c94..a0f3c14 100644
--- a/include/cppad/cg/evaluator/evaluator.hpp
+++ b/include/cppad/cg/evaluator/evaluator.hpp
@@ -473,6 +473,28 @@ protected:
             case CGOpCode::UnMinus: // -(a)
                 return thisOps.evalMinus(node);
 
+#if CPPAD_USE_CPLUSPLUS_2011
+            case CGOpCode::Acosh: // acosh(variable)
+                return thisOps.evalAcosh(node);
+
+            case CGOpCode::Asinh: // asinh(variable)
+                return thisOps.evalAsinh(node);
+
+            case CGOpCode::Atanh: // atanh(variable)
+                return thisOps.evalAtanh(node);
+
+            case CGOpCode::Erf: // erf(variable)
+                return thisOps.evalErf(node);
+
+            case CGOpCode::Erfc: // erfc(variable)
+                return thisOps.evalErfc(node);
+
+            case CGOpCode::Expm1: // expm1(variable)
+                return thisOps.evalExpm1(node);
+
+            case CGOpCode::Log1p: // log1p(variable)
+                return thisOps.evalLog1p(node);
+#endif
             default:
                 return thisOps.evalUnsupportedOperation(node);
         }
@@ -673,6 +695,50 @@ protected:
         return -evalArg(args, 0);
     }
 
+#if CPPAD_USE_CPLUSPLUS_2011
+    inline ActiveOut evalAcosh(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for acosh()")
+        return acosh(evalArg(args, 0));
+    }
+
+    inline ActiveOut evalAsinh(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for asinh()")
+        return asinh(evalArg(args, 0));
+    }
+
+    inline ActiveOut evalAtanh(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for atanh()")
+        return atanh(evalArg(args, 0));
+    }
+
+    inline ActiveOut evalErf(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for erf()")
+        return erf(evalArg(args, 0));
+    }
+
+    inline ActiveOut evalErfc(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for erfc()")
+        return erfc(evalArg(args, 0));
+    }
+
+    inline ActiveOut evalExpm1(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for expm1()")
+        return expm1(evalArg(args, 0));
+    }
+
+    inline ActiveOut evalLog1p(const NodeIn& node) {
+        const std::vector<ArgIn>& args = node.getArguments();
+        CPPADCG_ASSERT_KNOWN(args.size() == 1, "Invalid number of arguments for log1p()")
+        return log1p(evalArg(args, 0));
+    }
+#endif
+
     inline ActiveOut evalUnsupportedOperation(const NodeIn& node) {
         throw CGException("Unknown operation code '", node.getOperationType(), "'");
     }
diff --git a/include/cppad/cg/evaluator/evaluator_adolc.hpp b/include/cppad/cg/evaluator/evaluator_adolc.hpp
index baf7126..29d6098 100644
--- a/include/cppad/cg/evaluator/evaluator_adolc.hpp
+++ b/include/cppad/cg/evaluator/evaluator_adolc.hpp
@@ -96,8 +96,10 @@ namespace cg {
  */
 template<class ScalarIn>
 class Evaluator<ScalarIn, double, adouble> : public EvaluatorOperations<ScalarIn, double, adouble, Evaluator<ScalarIn, double, adouble> > {
+    friend EvaluatorOperations<ScalarIn, double, adouble, Evaluator<ScalarIn, double, adouble> >;
 public:
     using ActiveOut = adouble;
+    using NodeIn = OperationNode<ScalarIn>;
     using Super = EvaluatorOperations<ScalarIn, double, adouble, Evaluator<ScalarIn, double, adouble> >;
 public:
 
@@ -107,6 +109,39 @@ public:
 
     inline virtual ~Evaluator() = default;
 
+#if CPPAD_USE_CPLUSPLUS_2011
+protected:
+    /**
+     * functions which might not be available in ADOL-C
+     */
+    inline ActiveOut evalAcosh(const NodeIn& node) {
+        return this->evalUnsupportedOperation(node);
+    }
+
+    inline ActiveOut evalAsinh(const NodeIn& node) {
+        return this->evalUnsupportedOperation(node);
+    }
+
+    inline ActiveOut evalAtanh(const NodeIn& node) {
+        return this->evalUnsupportedOperation(node);
+    }
+
+    inline ActiveOut evalErf(const NodeIn& node) {
+        return this->evalUnsupportedOperation(node);
+    }
+
+    inline ActiveOut evalErfc(const NodeIn& node) {
+        return this->evalUnsupportedOperation(node);
+    }
+
+    inline ActiveOut evalExpm1(const NodeIn& node) {
+        return this->evalUnsupportedOperation(node);
+    }
+
+    inline ActiveOut evalLog1p(const NodeIn& node) {
+        return this->evalUnsupportedOperation(node);
+    }
+#endif
 };
 
 } // END cg namespace
-- 
2.43.0


From 4f9d38f5da6c76d8f3698fd06ea5549170fe77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 12/93] fix: results of user functions with constant arguments
 are not taken for variables

---
 include/cppad/cg/atomic_fun.hpp | 4 ++++
 include/cppad/cg/util.hpp       | 1 +
 2 files changed, 5 insertions(+)

diff --git a/include/cppad/cg/atomic_fun.hpp b/include/cppad/cg/atomic_fun.hpp
index b21dc20..2358b8d 100644
--- a/include/cppad/cg/atomic_fun.hpp
+++ b/include/cppad/cg/atomic_fun.hpp
@@ -190,6 +190,10 @@ protected:
         if (!ok)
             throw CGException("False returned from rev_sparse_jac() in the atomic function \"", this->atomic_name(), "\".");
 
+        for (size_t i = 0; i < m; i++) {
+            vy[i] = false;
+        }
+
         for (size_t j = 0; j < n; j++) {
             for (size_t i : st[j]) {
                 if (vx[j]) {
diff --git a/include/cppad/cg/util.hpp b/include/cppad/cg/util.hpp
index 9ef17d5..5c9b044 100644
--- a/include/cppad/cg/util.hpp
+++ b/include/cppad/cg/util.hpp
@@ -32,6 +32,7 @@ void zeroOrderDependency(ADFun<Base>& fun,
     const VectorSet jacSparsity = jacobianSparsitySet<VectorSet, Base>(fun);
 
     for (size_t i = 0; i < m; i++) {
+        vy[i] = false;
         for (size_t j : jacSparsity[i]) {
             if (vx[j]) {
                 vy[i] = true;
-- 
2.43.0


From e5e9c036dc2527640b514f658abd883cffd2ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 13/93] fix: conditional expressions with the not-equal
 comparison can be evaluated

---
 include/cppad/cg/cond_exp_op.hpp         | 3 +++
 include/cppad/cg/evaluator/evaluator.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/cond_exp_op.hpp b/include/cppad/cg/cond_exp_op.hpp
index a581e48..e913308 100644
--- a/include/cppad/cg/cond_exp_op.hpp
+++ b/include/cppad/cg/cond_exp_op.hpp
@@ -229,6 +229,9 @@ inline cg::CG<Base> CondExpOp(enum CompareOp cop,
         case CompareGt:
             return CondExpGt(left, right, trueCase, falseCase);
 
+        case CompareNe:
+            return CondExpEq(left, right, falseCase, trueCase);
+
         default:
             CPPAD_ASSERT_UNKNOWN(0)
             return trueCase;
diff --git a/include/cppad/cg/evaluator/evaluator.hpp b/include/cppad/cg/evaluator/evaluator.hpp
index a0f3c14..30f8f1c 100644
--- a/include/cppad/cg/evaluator/evaluator.hpp
+++ b/include/cppad/cg/evaluator/evaluator.hpp
@@ -591,7 +591,7 @@ protected:
     inline ActiveOut evalCompareNe(const NodeIn& node) {
         const std::vector<ArgIn>& args = node.getArguments();
         CPPADCG_ASSERT_KNOWN(args.size() == 4, "Invalid number of arguments for CondExpOp(CompareNe, )")
-        return CondExpOp(CompareNe, evalArg(args, 0), evalArg(args, 1), evalArg(args, 2), evalArg(args, 3));
+        return CondExpOp(CompareEq, evalArg(args, 0), evalArg(args, 1), evalArg(args, 3), evalArg(args, 2));
     }
 
     inline ActiveOut evalCosh(const NodeIn& node) {
-- 
2.43.0


From 4dad8c851f42a1e21f345920c68cd21774f7b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:57 +0000
Subject: [PATCH 14/93] fix: user function results of a failed evaluation are
 discarded before the next one

---
 include/cppad/cg/evaluator/evaluator.hpp    | 6 +++---
 include/cppad/cg/evaluator/evaluator_cg.hpp | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/evaluator/evaluator.hpp b/include/cppad/cg/evaluator/evaluator.hpp
index 30f8f1c..867dfeb 100644
--- a/include/cppad/cg/evaluator/evaluator.hpp
+++ b/include/cppad/cg/evaluator/evaluator.hpp
@@ -152,7 +152,9 @@ public:
 
         underEval_ = true;
 
-        clear(); // clean-up from any previous call that might have failed
+        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
+
+        thisOps.clear(); // clean-up from any previous call that might have failed
         evals_.adjustSize();
 
         depth_ = 0;
@@ -162,8 +164,6 @@ public:
             path_.reserve(30);
         }
 
-        FinalEvaluatorType& thisOps = static_cast<FinalEvaluatorType&>(*this);
-
         try {
             thisOps.prepareNewEvaluation();
 
diff --git a/include/cppad/cg/evaluator/evaluator_cg.hpp b/include/cppad/cg/evaluator/evaluator_cg.hpp
index feff2ab..5d868b5 100644
--- a/include/cppad/cg/evaluator/evaluator_cg.hpp
+++ b/include/cppad/cg/evaluator/evaluator_cg.hpp
@@ -63,6 +63,10 @@ public:
         printOutPriOperations_(true) {
     }
 
+    inline virtual ~EvaluatorCG() {
+        clear();
+    }
+
     /**
      * Defines whether or not to print out the nodes with an operation type
      * 'Pri' during the evaluation.
-- 
2.43.0


From 847c0cec4dd2aa694860c76f13dc56f9f9be1ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 15/93] fix: recordings made by an evaluator know their user
 functions

---
 include/cppad/cg/code_handler.hpp           |  2 ++
 include/cppad/cg/evaluator/evaluator_cg.hpp | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/cppad/cg/code_handler.hpp b/include/cppad/cg/code_handler.hpp
index 053acb6..9217273 100644
--- a/include/cppad/cg/code_handler.hpp
+++ b/include/cppad/cg/code_handler.hpp
@@ -893,6 +893,8 @@ protected:
     friend class CGAbstractAtomicFun<Base>;
     friend class BaseAbstractAtomicFun<Base>;
     friend class LoopModel<Base>;
+    template<class ScalarIn, class ScalarOut, class FinalEvaluatorType>
+    friend class EvaluatorCG;
 
 };
 
diff --git a/include/cppad/cg/evaluator/evaluator_cg.hpp b/include/cppad/cg/evaluator/evaluator_cg.hpp
index 5d868b5..54c63df 100644
--- a/include/cppad/cg/evaluator/evaluator_cg.hpp
+++ b/include/cppad/cg/evaluator/evaluator_cg.hpp
@@ -190,6 +190,7 @@ protected:
         }
 
         this->saveEvaluation(node, ActiveOut(*outHandler_->makeNode(op, info, outArgs)));
+        registerAtomic(*outHandler_, info[0]);
 
         if (valuesDefined) {
             const std::map<size_t, CGAbstractAtomicFun<ScalarIn>*>& afun = this->handler_.getAtomicFunctions();
@@ -349,6 +350,24 @@ protected:
         }
     }
 
+    /**
+     * The operations created for an atomic function can only be used by the
+     * new code handler if that atomic function is also known there.
+     */
+    inline void registerAtomic(CodeHandler<ScalarIn>& outHandler,
+                               size_t id) {
+        const auto& afun = this->handler_.getAtomicFunctions();
+        auto it = afun.find(id);
+        if (it != afun.end())
+            outHandler.registerAtomicFunction(*it->second);
+    }
+
+    template<class OtherHandler>
+    inline void registerAtomic(OtherHandler&,
+                               size_t) {
+        // not possible with a different data type
+    }
+
     static inline bool isParameters(const CppAD::vector<ActiveOut>& tx) {
         for (size_t i = 0; i < tx.size(); i++) {
             if (!tx[i].isParameter()) {
-- 
2.43.0


From 8e7bc8be9c70eb9c4cff581533d6d0e8662aa8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:44 +0000
Subject: [PATCH 16/93] fix: evaluator propagates the values of user function
 derivatives (orders and reverse mode)

---
 include/cppad/cg/evaluator/evaluator_cg.hpp | 53 ++++++++++++++++-----
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/include/cppad/cg/evaluator/evaluator_cg.hpp b/include/cppad/cg/evaluator/evaluator_cg.hpp
index 54c63df..bee42d5 100644
--- a/include/cppad/cg/evaluator/evaluator_cg.hpp
+++ b/include/cppad/cg/evaluator/evaluator_cg.hpp
@@ -166,11 +166,12 @@ protected:
         const std::vector<size_t>& info = node.getInfo();
         const std::vector<Argument<ScalarIn> >& inArgs = node.getArguments();
 
-        CPPADCG_ASSERT_KNOWN(info.size() == 3, "Invalid number of information data for atomic operation")
-        size_t p = info[2];
+        const bool forward = op == CGOpCode::AtomicForward;
+        CPPADCG_ASSERT_KNOWN(info.size() == (forward ? 3 : 2), "Invalid number of information data for atomic operation")
+        size_t p = forward ? info[2] : info[1];
         size_t p1 = p + 1;
 
-        CPPADCG_ASSERT_KNOWN(inArgs.size() == 2 * p1, "Invalid number of information data for atomic operation")
+        CPPADCG_ASSERT_KNOWN(inArgs.size() == (forward ? 2 : 4) * p1, "Invalid number of arguments for atomic operation")
 
         if (outHandler_ == nullptr) {
             throw CGException("Evaluator is unable to determine the new CodeHandler for an atomic operation");
@@ -196,7 +197,7 @@ protected:
             const std::map<size_t, CGAbstractAtomicFun<ScalarIn>*>& afun = this->handler_.getAtomicFunctions();
             size_t id = info[0];
             size_t q = info[1];
-            if (op == CGOpCode::AtomicForward) {
+            if (forward) {
                 auto itAFun = afun.find(id);
                 if (itAFun == afun.end()) {
                     if (allParameters)
@@ -207,11 +208,12 @@ protected:
                 auto& atomic = *itAFun->second;
 
                 CppAD::vector<bool> vx, vy;
-                CppAD::vector<ActiveOut> tx(outVals[0].size()), ty(outVals[1].size());
-                for (size_t i = 0; i < tx.size(); ++i)
-                    tx[i] = ActiveIn(outVals[0][i]);
-                for (size_t i = 0; i < ty.size(); ++i)
-                    ty[i] = ActiveIn(outVals[1][i]);
+                CppAD::vector<ActiveOut> tx(getArraySize(*inArgs[0].getOperation()) * p1);
+                CppAD::vector<ActiveOut> ty(getArraySize(*inArgs[p1].getOperation()) * p1);
+                for (size_t k = 0; k < p1; ++k) {
+                    copyTaylorCoefficients(*inArgs[k].getOperation(), outVals[k], p, k, tx);
+                    copyTaylorCoefficients(*inArgs[p1 + k].getOperation(), outVals[p1 + k], p, k, ty);
+                }
 
                 atomic.forward(q, p, vx, vy, tx, ty);
 
@@ -257,8 +259,14 @@ protected:
         auto it = atomicEvalResults_.find(&atomicNode);
         if (it != atomicEvalResults_.end()) {
             const std::vector<ScalarOut*>& yOut = it->second;
-            if (index < yOut.size() && yOut[index] != nullptr)
-                out.setValue(*yOut[index]);
+            const std::vector<ArgIn>& atomicArgs = atomicNode.getArguments();
+            size_t p1 = atomicArgs.size() / 2;
+            size_t k = 0; // order of the Taylor coefficient
+            while (k < p1 && atomicArgs[p1 + k].getOperation() != args[0].getOperation())
+                ++k;
+            size_t pos = index * p1 + k;
+            if (k < p1 && pos < yOut.size() && yOut[pos] != nullptr)
+                out.setValue(*yOut[pos]);
         }
 
         return out;
@@ -350,6 +358,29 @@ protected:
         }
     }
 
+    static inline size_t getArraySize(const NodeIn& array) {
+        if (array.getOperationType() == CGOpCode::ArrayCreation)
+            return array.getArguments().size();
+        else
+            return array.getInfo()[0]; // sparse array
+    }
+
+    /**
+     * Places the elements of a (dense or sparse) array in the positions of
+     * the Taylor coefficients of order k.
+     */
+    static inline void copyTaylorCoefficients(const NodeIn& array,
+                                              const std::vector<ScalarOut>& values,
+                                              size_t p,
+                                              size_t k,
+                                              CppAD::vector<ActiveOut>& t) {
+        bool dense = array.getOperationType() == CGOpCode::ArrayCreation;
+        for (size_t i = 0; i < values.size(); ++i) {
+            size_t pos = dense ? i : array.getInfo()[1 + i];
+            t[pos * (p + 1) + k] = ActiveOut(values[i]);
+        }
+    }
+
     /**
      * The operations created for an atomic function can only be used by the
      * new code handler if that atomic function is also known there.
-- 
2.43.0


From d97b2d6ebb49c3a4ee23be541634a2b6d3d5ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:44 +0000
Subject: [PATCH 17/93] fix: derivatives of user functions are refused by AD
 evaluators with an exception

---
 include/cppad/cg/evaluator/evaluator_ad.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/cppad/cg/evaluator/evaluator_ad.hpp b/include/cppad/cg/evaluator/evaluator_ad.hpp
index 35d49bc..5dd03f3 100644
--- a/include/cppad/cg/evaluator/evaluator_ad.hpp
+++ b/include/cppad/cg/evaluator/evaluator_ad.hpp
@@ -140,9 +140,14 @@ protected:
 
         const std::vector<size_t>& info = node.getInfo();
         const std::vector<Argument<ScalarIn> >& args = node.getArguments();
-        CPPADCG_ASSERT_KNOWN(args.size() == 2, "Invalid number of arguments for atomic forward mode")
         CPPADCG_ASSERT_KNOWN(info.size() == 3, "Invalid number of information data for atomic forward mode")
 
+        size_t p = info[2];
+        if (p != 0) {
+            throw CGException("Evaluator can only handle zero forward mode for atomic functions");
+        }
+        CPPADCG_ASSERT_KNOWN(args.size() == 2, "Invalid number of arguments for atomic forward mode")
+
         // find the atomic function
         size_t id = info[0];
         typename std::map<size_t, atomic_base<ScalarOut>* >::const_iterator itaf = atomicFunctions_.find(id);
@@ -162,10 +167,6 @@ protected:
             throw CGException(ss.str());
         }
 
-        size_t p = info[2];
-        if (p != 0) {
-            throw CGException("Evaluator can only handle zero forward mode for atomic functions");
-        }
         const std::vector<ActiveOut>& ax = evalArrayCreationOperation(*args[0].getOperation());
         std::vector<ActiveOut>& ay = evalArrayCreationOperation(*args[1].getOperation());
 
-- 
2.43.0


From 00a10435652b1cdbde361def8da770a07783ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 18/93] fix: evaluate the model before JacobianFor/JacobianRev
 when the mode is chosen explicitly

---
 include/cppad/cg/model/model_c_source_gen_jac.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cppad/cg/model/model_c_source_gen_jac.hpp b/include/cppad/cg/model/model_c_source_gen_jac.hpp
index d6f5085..47a54a4 100644
--- a/include/cppad/cg/model/model_c_source_gen_jac.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_jac.hpp
@@ -44,8 +44,10 @@ void ModelCSourceGen<Base>::generateJacobianSource() {
     if (_jacMode == JacobianADMode::Automatic) {
         jac = _fun.Jacobian(indVars);
     } else if (_jacMode == JacobianADMode::Forward) {
+        _fun.Forward(0, indVars); // not performed by JacobianFor()
         JacobianFor(_fun, indVars, jac);
     } else {
+        _fun.Forward(0, indVars); // not performed by JacobianRev()
         JacobianRev(_fun, indVars, jac);
     }
 
-- 
2.43.0


From 4b9de0076e64d29b8afd9e73c6326cef9ee15d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 19/93] fix: do not rely on node positions to identify
 independents in AtomicDependencyLocator

---
 include/cppad/cg/atomic_dependency_locator.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/atomic_dependency_locator.hpp b/include/cppad/cg/atomic_dependency_locator.hpp
index 4ae2389..896f495 100644
--- a/include/cppad/cg/atomic_dependency_locator.hpp
+++ b/include/cppad/cg/atomic_dependency_locator.hpp
@@ -70,8 +70,9 @@ public:
         std::vector<CG<Base> > x(n);
         handler_.makeVariables(x);
 
-        // make sure the position in the code handler is the same as the independent index
-        assert(x.size() == 0 || (x[0].getOperationNode()->getHandlerPosition() == 0 && x[x.size() - 1].getOperationNode()->getHandlerPosition() == x.size() - 1));
+        for (size_t j = 0; j < n; j++) {
+            indeps_[x[j].getOperationNode()].insert(j);
+        }
 
         std::vector<CG<Base> > dep = fun_.Forward(0, x);
 
@@ -97,10 +98,7 @@ private:
 
         CGOpCode op = node->getOperationType();
         if (op == CGOpCode::Inv) {
-            std::set<size_t> indeps;
-            // particular case where the position in the code handler is the same as the independent index
-            indeps.insert(node->getHandlerPosition());
-            return indeps;
+            return indeps_.at(node);
         }
 
         if (handler_.isVisited(*node)) {
-- 
2.43.0


From 5ee6d21e1f57d07280f5e16ffaa27cfaecdfb259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 20/93] fix: isCreateReverseTwo() must report the second-order
 reverse mode

---
 include/cppad/cg/model/model_c_source_gen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/model_c_source_gen.hpp b/include/cppad/cg/model/model_c_source_gen.hpp
index 5119108..ba44f5c 100644
--- a/include/cppad/cg/model/model_c_source_gen.hpp
+++ b/include/cppad/cg/model/model_c_source_gen.hpp
@@ -765,7 +765,7 @@ public:
      *         mode is enabled, false otherwise.
      */
     inline bool isCreateReverseTwo() const {
-        return _reverseOne;
+        return _reverseTwo;
     }
 
     /**
-- 
2.43.0


From 8c673ca1b78a5de04144af8ab754cdccf22f6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 21/93] fix: ForwardZero() must also report dependents that are
 not variables

---
 include/cppad/cg/model/functor_generic_model.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index c645685..17376ed 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -384,6 +384,7 @@ public:
             CPPADCG_ASSERT_KNOWN(vy.size() >= _m, "Invalid vy size")
             const std::vector<std::set<size_t> > jacSparsity = JacobianSparsitySet();
             for (size_t i = 0; i < _m; i++) {
+                vy[i] = false;
                 for (size_t j : jacSparsity[i]) {
                     if (vx[j]) {
                         vy[i] = true;
-- 
2.43.0


From 534bfb2e7238c7dfa81f9927450407cbdf69d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 22/93] fix: directional derivatives along directions without
 nonzero elements are zero, not a failure

---
 include/cppad/cg/model/functor_generic_model.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index 17376ed..044c551 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -489,7 +489,10 @@ public:
 
         for (size_t ej = 0; ej < tx1Nnz; ej++) {
             size_t j = idx[ej];
+            CPPADCG_ASSERT_KNOWN(j < _n, "Invalid independent variable index")
             (*_forwardOneSparsity)(j, &pos, &nnz);
+            if (nnz == 0)
+                continue; // no contribution (there is no function for this index)
 
             _inHess[1] = &tx1[ej];
             int ret = (*_sparseForwardOne)(j, &_inHess[0], &_out[0], _atomicFuncArg);
@@ -555,7 +558,10 @@ public:
 
         for (size_t ei = 0; ei < pyNnz; ei++) {
             size_t i = idx[ei];
+            CPPADCG_ASSERT_KNOWN(i < _m, "Invalid dependent variable index")
             (*_reverseOneSparsity)(i, &pos, &nnz);
+            if (nnz == 0)
+                continue; // no contribution (there is no function for this index)
 
             _inHess[1] = &py[ei];
             int ret = (*_sparseReverseOne)(i, &_inHess[0], &_out[0], _atomicFuncArg);
@@ -627,7 +633,10 @@ public:
 
         for (size_t ej = 0; ej < tx1Nnz; ej++) {
             size_t j = idx[ej];
+            CPPADCG_ASSERT_KNOWN(j < _n, "Invalid independent variable index")
             (*_reverseTwoSparsity)(j, &pos, &nnz);
+            if (nnz == 0)
+                continue; // no contribution (there is no function for this index)
 
             in[1] = &tx1[ej];
             int ret = (*_sparseReverseTwo)(j, &in[0], &_out[0], _atomicFuncArg);
-- 
2.43.0


From ecb369f14ba50fcce5d6ce393416ed6c7fc76122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 23/93] fix: second-order reverse mode of user functions
 provides the partials of both orders

---
 include/cppad/cg/abstract_atomic_fun.hpp | 144 ++++++++++++++++-------
 1 file changed, 101 insertions(+), 43 deletions(-)

diff --git a/include/cppad/cg/abstract_atomic_fun.hpp b/include/cppad/cg/abstract_atomic_fun.hpp
index 4928e99..ea3018c 100644
--- a/include/cppad/cg/abstract_atomic_fun.hpp
+++ b/include/cppad/cg/abstract_atomic_fun.hpp
@@ -269,25 +269,17 @@ public:
         }
 
         size_t p1 = p + 1;
-        // k == 0
         size_t m = ty.size() / p1;
         size_t n = tx.size() / p1;
 
-        vector<std::set<size_t> > rt(m);
-        for (size_t i = 0; i < m; i++) {
-            if (!py[i * p1].isIdenticalZero()) {
-                rt[i].insert(0);
-            }
-        }
-
         CppAD::vector<CGB> x(n);
         for (size_t j = 0; j < n; j++) {
             x[j] = tx[j * p1];
         }
 
+        // the highest order only depends on the first-order derivatives
         vector<std::set<size_t> > st(n);
-        bool good = this->rev_sparse_jac(1, rt, st, x);
-        if (!good) {
+        if (!reverseDependency(p, p, m, py, x, st)) {
             return false;
         }
 
@@ -314,13 +306,19 @@ public:
                 }
             }
             for (size_t i = 0; i < m; i++) {
-                s[i] = !py[i * p1 + 1].isIdenticalZero();
+                s[i] = !py[i * p1 + p].isIdenticalZero();
             }
 
             this->rev_sparse_hes(vx, s, t, 1, r, u, v, x);
 
+            // contribution from the first-order derivatives
+            vector<std::set<size_t> > st1(n);
+            if (!reverseDependency(p, p - 1, m, py, x, st1)) {
+                return false;
+            }
+
             for (size_t j = 0; j < n; j++) {
-                vxLocal[j * p1 + p - 1] = !v[j].empty();
+                vxLocal[j * p1 + p - 1] = !v[j].empty() || !st1[j].empty();
             }
         }
 
@@ -362,46 +360,37 @@ public:
         }
         CPPADCG_ASSERT_UNKNOWN(handler != nullptr)
 
-        std::vector<OperationNode<Base>*> txArray(p1), tyArray(p1), pxArray(p1), pyArray(p1);
-        for (size_t k = 0; k <= p; k++) {
-            if (k == 0)
-                txArray[k] = BaseAbstractAtomicFun<Base>::makeArray(*handler, tx, p, k);
-            else
-                txArray[k] = BaseAbstractAtomicFun<Base>::makeSparseArray(*handler, tx, p, k);
+        OperationNode<Base>* pxArray;
+        OperationNode<Base>* atomicOp = makeReverseOperation(*handler, p, tx, ty, py, pxArray);
 
-            if (standAlone_) {
-                tyArray[k] = BaseAbstractAtomicFun<Base>::makeEmptySparseArray(*handler, m);
-            } else {
-                tyArray[k] = BaseAbstractAtomicFun<Base>::makeSparseArray(*handler, ty, p, k);
+        OperationNode<Base>* pxArrayP = pxArray;
+        OperationNode<Base>* atomicOpP = atomicOp;
+        if (p == 1) {
+            /**
+             * An operation only provides the lowest order (k == 0), the
+             * highest order is the result of a first-order reverse mode
+             */
+            vector<CGB> tx0(n), ty0(m), py1(m);
+            for (size_t j = 0; j < n; j++) {
+                tx0[j] = tx[j * p1];
             }
-
-            if (k == 0)
-                pxArray[k] = BaseAbstractAtomicFun<Base>::makeZeroArray(*handler, n);
-            else
-                pxArray[k] = BaseAbstractAtomicFun<Base>::makeEmptySparseArray(*handler, n);
-
-            if (k == 0)
-                pyArray[k] = BaseAbstractAtomicFun<Base>::makeSparseArray(*handler, py, p, k);
-            else
-                pyArray[k] = BaseAbstractAtomicFun<Base>::makeArray(*handler, py, p, k);
-        }
-
-        std::vector<Argument<Base> > args(4 * p1);
-        for (size_t k = 0; k <= p; k++) {
-            args[0 * p1 + k] = *txArray[k];
-            args[1 * p1 + k] = *tyArray[k];
-            args[2 * p1 + k] = *pxArray[k];
-            args[3 * p1 + k] = *pyArray[k];
+            for (size_t i = 0; i < m; i++) {
+                ty0[i] = ty[i * p1];
+                py1[i] = py[i * p1 + 1];
+            }
+            atomicOpP = makeReverseOperation(*handler, 0, tx0, ty0, py1, pxArrayP);
         }
-
-        OperationNode<Base>* atomicOp = handler->makeNode(CGOpCode::AtomicReverse,{id_, p}, args);
         handler->registerAtomicFunction(*this);
 
         for (size_t k = 0; k < p1; k++) {
+            CPPADCG_ASSERT_KNOWN(k == 0 || k == p, "Only reverse modes up to second-order are supported")
             for (size_t j = 0; j < n; j++) {
                 size_t pos = j * p1 + k;
                 if (vxLocal[pos]) {
-                    px[pos] = CGB(*handler->makeNode(CGOpCode::ArrayElement, {j}, {*pxArray[k], *atomicOp}));
+                    if (k == 0)
+                        px[pos] = CGB(*handler->makeNode(CGOpCode::ArrayElement, {j}, {*pxArray, *atomicOp}));
+                    else
+                        px[pos] = CGB(*handler->makeNode(CGOpCode::ArrayElement, {j}, {*pxArrayP, *atomicOpP}));
                     if (valuesDefined) {
                         px[pos].setValue(pxb[pos]);
                     }
@@ -501,6 +490,75 @@ public:
 
 protected:
 
+    /**
+     * Determines which independents have a contribution from the
+     * adjoints of order k using the Jacobian sparsity.
+     */
+    inline bool reverseDependency(size_t p,
+                                  size_t k,
+                                  size_t m,
+                                  const CppAD::vector<CGB>& py,
+                                  const CppAD::vector<CGB>& x,
+                                  CppAD::vector<std::set<size_t> >& st) {
+        CppAD::vector<std::set<size_t> > rt(m);
+        for (size_t i = 0; i < m; i++) {
+            if (!py[i * (p + 1) + k].isIdenticalZero()) {
+                rt[i].insert(0);
+            }
+        }
+
+        return this->rev_sparse_jac(1, rt, st, x);
+    }
+
+    /**
+     * Creates the operation node for a reverse mode call.
+     *
+     * @param pxArray the array which will contain the results (order 0)
+     * @return the reverse mode operation
+     */
+    inline OperationNode<Base>* makeReverseOperation(CodeHandler<Base>& handler,
+                                                     size_t p,
+                                                     const CppAD::vector<CGB>& tx,
+                                                     const CppAD::vector<CGB>& ty,
+                                                     const CppAD::vector<CGB>& py,
+                                                     OperationNode<Base>*& pxArray) {
+        size_t p1 = p + 1;
+        size_t m = ty.size() / p1;
+        size_t n = tx.size() / p1;
+
+        std::vector<Argument<Base> > args(4 * p1);
+        for (size_t k = 0; k <= p; k++) {
+            OperationNode<Base> *txK, *tyK, *pxK, *pyK;
+            if (k == 0)
+                txK = BaseAbstractAtomicFun<Base>::makeArray(handler, tx, p, k);
+            else
+                txK = BaseAbstractAtomicFun<Base>::makeSparseArray(handler, tx, p, k);
+
+            if (standAlone_) {
+                tyK = BaseAbstractAtomicFun<Base>::makeEmptySparseArray(handler, m);
+            } else {
+                tyK = BaseAbstractAtomicFun<Base>::makeSparseArray(handler, ty, p, k);
+            }
+
+            if (k == 0)
+                pxArray = pxK = BaseAbstractAtomicFun<Base>::makeZeroArray(handler, n);
+            else
+                pxK = BaseAbstractAtomicFun<Base>::makeEmptySparseArray(handler, n);
+
+            if (k == 0)
+                pyK = BaseAbstractAtomicFun<Base>::makeSparseArray(handler, py, p, k);
+            else
+                pyK = BaseAbstractAtomicFun<Base>::makeArray(handler, py, p, k);
+
+            args[0 * p1 + k] = *txK;
+            args[1 * p1 + k] = *tyK;
+            args[2 * p1 + k] = *pxK;
+            args[3 * p1 + k] = *pyK;
+        }
+
+        return handler.makeNode(CGOpCode::AtomicReverse, {id_, p}, args);
+    }
+
     virtual void zeroOrderDependency(const CppAD::vector<bool>& vx,
                                      CppAD::vector<bool>& vy,
                                      const CppAD::vector<CGB>& x) = 0;
-- 
2.43.0


From a836f4cc7e4439f41ec0c166579b10a00980248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 24/93] fix: dependents which are array elements used elsewhere
 are assigned

---
 include/cppad/cg/code_handler_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index e35fc59..1556ef2 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1593,8 +1593,12 @@ void CodeHandler<Base>::checkVariableCreation(Node& root) {
                     }
                 }
 
+                // dependents must always be assigned, even when other operations use them first
+                bool isDep = _varId[arg] != 0 && _varId[arg] < _minTemporaryVarID;
+
                 // determine if this variable should be temporary/dependent variable
-                if (_lang->createsNewVariable(arg, getTotalUsageCount(arg), opCount) ||
+                if (isDep ||
+                    _lang->createsNewVariable(arg, getTotalUsageCount(arg), opCount) ||
                     _lang->requiresVariableArgument(code.getOperationType(), argIndex)) {
 
                     addToEvaluationQueue(arg);
-- 
2.43.0


From 47f569020b339982b08bdefda7d48c46aa19b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 25/93] fix: array space is not reused while expressions still
 have to read its elements

---
 include/cppad/cg/array_id_compresser.hpp | 34 +++++++++++++++++++-----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/cppad/cg/array_id_compresser.hpp b/include/cppad/cg/array_id_compresser.hpp
index a4ada7c..31a2f3a 100644
--- a/include/cppad/cg/array_id_compresser.hpp
+++ b/include/cppad/cg/array_id_compresser.hpp
@@ -104,13 +104,8 @@ public:
         std::set<size_t> blackList;
         const std::vector<Argument<Base> >& args = newArray.getArguments();
         for (size_t i = 0; i < args.size(); i++) {
-            const OperationNode<Base>* argOp = args[i].getOperation();
-            if (argOp != nullptr && argOp->getOperationType() == CGOpCode::ArrayElement) {
-                const OperationNode<Base>& otherArray = *argOp->getArguments()[0].getOperation();
-                CPPADCG_ASSERT_UNKNOWN(_varId[otherArray] > 0); // make sure it had already been assigned space
-                size_t otherArrayStart = _varId[otherArray] - 1;
-                size_t index = argOp->getInfo()[0];
-                blackList.insert(otherArrayStart + index);
+            if (args[i].getOperation() != nullptr) {
+                findArrayElements(*args[i].getOperation(), blackList);
             }
         }
 
@@ -216,6 +211,31 @@ public:
         return bestStart;
     }
 
+    /**
+     * Finds the locations of the array elements which are read by an
+     * expression (variables which are already assigned are not followed)
+     */
+    inline void findArrayElements(const OperationNode<Base>& root,
+                                  std::set<size_t>& locations) const {
+        std::vector<const OperationNode<Base>*> pending{&root};
+        while (!pending.empty()) {
+            const OperationNode<Base>& node = *pending.back();
+            pending.pop_back();
+
+            if (node.getOperationType() == CGOpCode::ArrayElement) {
+                const OperationNode<Base>& array = *node.getArguments()[0].getOperation();
+                CPPADCG_ASSERT_UNKNOWN(_varId[array] > 0) // make sure it had already been assigned space
+                locations.insert(_varId[array] - 1 + node.getInfo()[0]);
+
+            } else if (_varId[node] == 0) {
+                for (const auto& a: node.getArguments()) {
+                    if (a.getOperation() != nullptr)
+                        pending.push_back(a.getOperation());
+                }
+            }
+        }
+    }
+
     inline static bool isSameArrayElement(const Argument<Base>* oldArg,
                                           const Argument<Base>& arg) {
         if (oldArg != nullptr) {
-- 
2.43.0


From 885c76d1e18a33f6b7874b5a63fdab98b4205cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 26/93] fix: constants in array loops of the generated C code
 are printed with full precision

---
 include/cppad/cg/lang/c/language_c_arrays.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c_arrays.hpp b/include/cppad/cg/lang/c/language_c_arrays.hpp
index 0147a91..b1bbf9e 100644
--- a/include/cppad/cg/lang/c/language_c_arrays.hpp
+++ b/include/cppad/cg/lang/c/language_c_arrays.hpp
@@ -278,7 +278,7 @@ inline size_t LanguageC<Base>::printArrayCreationUsingLoop(size_t startPos,
         if (i - starti < 3)
             return starti;
 
-        arrayAssign << value;
+        writeParameter(value, arrayAssign);
     }
 
     /**
-- 
2.43.0


From 97400864298bb960e0e957f4ac490848a5b1aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 27/93] fix: sparse directional routines do not share buffers
 with calls to user functions

---
 include/cppad/cg/model/functor_generic_model.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index 044c551..c53f879 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -49,6 +49,8 @@ protected:
     std::vector<ExternalFunctionWrapper<Base>* > _atomic;
     size_t _missingAtomicFunctions;
     CppAD::vector<Base> _tx, _ty, _px, _py;
+    // results of the sparse directional routines (not changed by calls to atomic functions)
+    std::vector<Base> _compressed;
     // original model function
     void (*_zero)(Base const*const*, Base * const*, LangCAtomicFun);
     // first order forward mode
@@ -481,8 +483,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _ty.resize(_m);
-        Base* compressed = &_ty[0];
+        _compressed.resize(_m);
+        Base* compressed = _compressed.data();
 
         _inHess[0] = x.data();
         _out[0] = compressed;
@@ -550,8 +552,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _px.resize(_n);
-        Base* compressed = &_px[0];
+        _compressed.resize(_n);
+        Base* compressed = _compressed.data();
 
         _inHess[0] = x.data();
         _out[0] = compressed;
@@ -623,8 +625,8 @@ public:
         unsigned long const* pos;
         size_t nnz = 0;
 
-        _px.resize(_n);
-        Base* compressed = &_px[0];
+        _compressed.resize(_n);
+        Base* compressed = _compressed.data();
 
         const Base * in[3];
         in[0] = x.data();
-- 
2.43.0


From 17f372e5bda9515731ce7645cd78920be371dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 28/93] fix: structures for calls to user functions are set up
 in each function of split code

---
 include/cppad/cg/lang/c/language_c.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 445a895..eab5a1b 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1081,6 +1081,9 @@ protected:
 
         _code.str("");
         _ss.str("");
+
+        // the structures used to call atomic functions are local to each function
+        _atomicFuncArrays.clear();
     }
 
     bool createsNewVariable(const Node& var,
-- 
2.43.0


From e051b9a5e0f1d7e54e8701ac4ac02ff8581924d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 29/93] fix: sign() of array elements in generated C code

---
 include/cppad/cg/lang/c/language_c.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index eab5a1b..3445e93 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1522,17 +1522,20 @@ protected:
     virtual void pushSignFunction(Node& op) {
         CPPADCG_ASSERT_KNOWN(op.getArguments().size() == 1, "Invalid number of arguments for sign() function")
         CPPADCG_ASSERT_UNKNOWN(op.getArguments()[0].getOperation() != nullptr)
-        CPPADCG_ASSERT_UNKNOWN(getVariableID(*op.getArguments()[0].getOperation()) > 0)
 
-        Node& arg = *op.getArguments()[0].getOperation();
-
-        const std::string& argName = createVariableName(arg);
+        // a variable, or an array element (which does not require a variable)
+        const Arg& arg = op.getArguments()[0];
+        CPPADCG_ASSERT_UNKNOWN(getVariableID(*arg.getOperation()) > 0 || arg.getOperation()->getOperationType() == CGOpCode::ArrayElement)
 
-        _streamStack << "(" << argName << " " << _C_COMP_OP_GT << " ";
+        _streamStack << "(";
+        push(arg);
+        _streamStack << " " << _C_COMP_OP_GT << " ";
         pushParameter(Base(0.0));
         _streamStack << "?";
         pushParameter(Base(1.0));
-        _streamStack << ":(" << argName << " " << _C_COMP_OP_LT << " ";
+        _streamStack << ":(";
+        push(arg);
+        _streamStack << " " << _C_COMP_OP_LT << " ";
         pushParameter(Base(0.0));
         _streamStack << "?";
         pushParameter(Base(-1.0));
-- 
2.43.0


From 094cddcc6cb561ddc83913299fc17e6ebf77fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 30/93] fix: calls to atomic functions from several threads of
 a multithreaded model do not share buffers concurrently

---
 include/cppad/cg/cppadcg.hpp                     | 1 +
 include/cppad/cg/model/functor_generic_model.hpp | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/cppad/cg/cppadcg.hpp b/include/cppad/cg/cppadcg.hpp
index 8dc5691..9b92e90 100644
--- a/include/cppad/cg/cppadcg.hpp
+++ b/include/cppad/cg/cppadcg.hpp
@@ -54,6 +54,7 @@ static_assert(false,
 #include <string>
 #include <cstring>
 #include <chrono>
+#include <mutex>
 #include <thread>
 #include <functional>
 
diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index c53f879..a301c44 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -49,6 +49,8 @@ protected:
     std::vector<ExternalFunctionWrapper<Base>* > _atomic;
     size_t _missingAtomicFunctions;
     CppAD::vector<Base> _tx, _ty, _px, _py;
+    // for the calls to atomic functions (which use the vectors above)
+    std::recursive_mutex _atomicMutex;
     // results of the sparse directional routines (not changed by calls to atomic functions)
     std::vector<Base> _compressed;
     // original model function
@@ -1112,6 +1114,9 @@ private:
         auto* libModel = static_cast<FunctorGenericModel<Base>*> (libModelIn);
         ExternalFunctionWrapper<Base>* externalFunc = libModel->_atomic[atomicIndex];
 
+        // multithreaded models can call atomic functions from several threads at the same time
+        std::lock_guard<std::recursive_mutex> lock(libModel->_atomicMutex);
+
         return externalFunc->forward(*libModel, q, p, tx, *ty);
     }
 
@@ -1124,6 +1129,8 @@ private:
         auto* libModel = static_cast<FunctorGenericModel<Base>*> (libModelIn);
         ExternalFunctionWrapper<Base>* externalFunc = libModel->_atomic[atomicIndex];
 
+        std::lock_guard<std::recursive_mutex> lock(libModel->_atomicMutex);
+
         return externalFunc->reverse(*libModel, p, tx, *px, py);
     }
 #ifdef CPPAD_CG_SYSTEM_LINUX
-- 
2.43.0


From d40706da94334737ce810c0458a93bcfe9ecf356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 31/93] fix: keep the OpenMP runtime loaded when a dynamic
 library is closed

---
 .../model/dynamic_lib/linux/linux_dynamiclib.hpp  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
index 73b6024..c4feb26 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
@@ -109,6 +109,8 @@ public:
                 (*this->_onClose)();
             }
 
+            keepOpenMPRuntime();
+
             dlclose(_dynLibHandle);
             _dynLibHandle = nullptr;
         }
@@ -120,6 +122,19 @@ protected:
         _models.erase(model);
     }
 
+    /**
+     * The threads created by OpenMP outlive the evaluations of the models,
+     * therefore its runtime library must not be unloaded along with the
+     * dynamic library.
+     */
+    inline void keepOpenMPRuntime() {
+        void* function = dlsym(_dynLibHandle, "omp_get_max_threads");
+        Dl_info info;
+        if (function != nullptr && dladdr(function, &info) != 0 && info.dli_fname != nullptr) {
+            dlopen(info.dli_fname, RTLD_LAZY | RTLD_NOLOAD | RTLD_NODELETE);
+        }
+    }
+
     friend class LinuxDynamicLibModel<Base>;
 
 };
-- 
2.43.0


From 8216409f0a38ba0679243270339da7b7be4a3971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 32/93] fix: multithreaded sparse Hessians use the multipliers
 of the equations

---
 include/cppad/cg/model/model_c_source_gen_hes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/model_c_source_gen_hes.hpp b/include/cppad/cg/model/model_c_source_gen_hes.hpp
index 282ed78..efc25e3 100644
--- a/include/cppad/cg/model/model_c_source_gen_hes.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_hes.hpp
@@ -419,7 +419,7 @@ std::string ModelCSourceGen<Base>::generateSparseHessianRev2MultiThreadSource(co
                 "\n"
                 "   inLocal[0] = in[0];\n"
                 "   inLocal[1] = &inLocal1;\n"
-                "   inLocal[2] = in[1];\n"
+                "   inLocal[2] = in[2];\n"
                 "   outLocal[0] = compressed;\n";
         _cache << "   " << functionRev2 << "_" << rev2Suffix << index << "(" << argsLocal << ");\n";
         for (size_t e = 0; e < els.size(); e++) {
-- 
2.43.0


From afbc26c21d18fe147f6ba8d0c874a26ad84dcab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 33/93] fix: moved dynamic libraries and moved models keep
 track of each other

---
 .../cg/model/dynamic_lib/linux/linux_dynamiclib.hpp  | 12 ++++++++++++
 .../dynamic_lib/linux/linux_dynamiclib_model.hpp     |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
index c4feb26..18d3e0c 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib.hpp
@@ -67,6 +67,12 @@ public:
             _dynLibHandle(other._dynLibHandle),
             _models(std::move(other._models)) {
         other._dynLibHandle = nullptr;
+        other._models.clear();
+
+        // the models now belong to this library
+        for (LinuxDynamicLibModel<Base>* model : _models) {
+            model->_dynLib = this;
+        }
     }
 
     LinuxDynamicLib(const LinuxDynamicLib&) = delete;
@@ -122,6 +128,12 @@ protected:
         _models.erase(model);
     }
 
+    virtual void moved(LinuxDynamicLibModel<Base>* from,
+                       LinuxDynamicLibModel<Base>* to) {
+        _models.erase(from);
+        _models.insert(to);
+    }
+
     /**
      * The threads created by OpenMP outlive the evaluations of the models,
      * therefore its runtime library must not be unloaded along with the
diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp
index 242af9a..c537730 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamiclib_model.hpp
@@ -41,6 +41,10 @@ public:
             FunctorGenericModel<Base>(std::move(other)),
             _dynLib(other._dynLib) {
         other._dynLib = nullptr;
+
+        if (_dynLib != nullptr) {
+            _dynLib->moved(&other, this);
+        }
     }
 
     virtual ~LinuxDynamicLibModel() {
-- 
2.43.0


From f0822b196c374326154c95aa81a503edabc61b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 34/93] fix: the atomic function of a model follows the model
 when it is moved

---
 .../cppad/cg/model/atomic_generic_model.hpp   | 42 +++++++++++--------
 include/cppad/cg/model/generic_model.hpp      |  3 ++
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/include/cppad/cg/model/atomic_generic_model.hpp b/include/cppad/cg/model/atomic_generic_model.hpp
index 722ea67..213f10c 100644
--- a/include/cppad/cg/model/atomic_generic_model.hpp
+++ b/include/cppad/cg/model/atomic_generic_model.hpp
@@ -27,7 +27,7 @@ namespace cg {
 template <class Base>
 class CGAtomicGenericModel : public atomic_base<Base> {
 protected:
-    GenericModel<Base>& model_;
+    GenericModel<Base>* model_;
 public:
 
     /**
@@ -38,12 +38,20 @@ public:
      */
     CGAtomicGenericModel(GenericModel<Base>& model) :
         atomic_base<Base>(model.getName()),
-        model_(model) {
+        model_(&model) {
         this->option(CppAD::atomic_base<Base>::set_sparsity_enum);
     }
 
     virtual ~CGAtomicGenericModel() = default;
 
+    /**
+     * Defines the object which holds the compiled model (required when the
+     * model is moved).
+     */
+    inline void setModel(GenericModel<Base>& model) noexcept {
+        model_ = &model;
+    }
+
     template <class ADVector>
     void operator()(const ADVector& ax, ADVector& ay, size_t id = 0) {
         this->atomic_base<Base>::operator()(ax, ay, id);
@@ -56,10 +64,10 @@ public:
                  const CppAD::vector<Base>& tx,
                  CppAD::vector<Base>& ty) override {
         if (p == 0) {
-            model_.ForwardZero(vx, vy, tx, ty);
+            model_->ForwardZero(vx, vy, tx, ty);
             return true;
         } else if (p == 1) {
-            model_.ForwardOne(tx, ty);
+            model_->ForwardOne(tx, ty);
             return true;
         }
 
@@ -72,10 +80,10 @@ public:
                  CppAD::vector<Base>& px,
                  const CppAD::vector<Base>& py) override {
         if (p == 0) {
-            model_.ReverseOne(tx, ty, px, py);
+            model_->ReverseOne(tx, ty, px, py);
             return true;
         } else if (p == 1) {
-            model_.ReverseTwo(tx, ty, px, py);
+            model_->ReverseTwo(tx, ty, px, py);
             return true;
         }
 
@@ -92,13 +100,13 @@ public:
     bool for_sparse_jac(size_t q,
                         const CppAD::vector<std::set<size_t> >& r,
                         CppAD::vector<std::set<size_t> >& s) override {
-        size_t n = model_.Domain();
-        size_t m = model_.Range();
+        size_t n = model_->Domain();
+        size_t m = model_->Range();
         for (size_t i = 0; i < m; i++) {
             s[i].clear();
         }
 
-        const std::vector<std::set<size_t> > jacSparsity = model_.JacobianSparsitySet();
+        const std::vector<std::set<size_t> > jacSparsity = model_->JacobianSparsitySet();
 
         // S(x) =  f'(x) * R
         CppAD::cg::multMatrixMatrixSparsity(jacSparsity, r, s, m, n, q);
@@ -116,13 +124,13 @@ public:
     bool rev_sparse_jac(size_t q,
                         const CppAD::vector<std::set<size_t> >& rT,
                         CppAD::vector<std::set<size_t> >& sT) override {
-        size_t n = model_.Domain();
-        size_t m = model_.Range();
+        size_t n = model_->Domain();
+        size_t m = model_->Range();
         for (size_t i = 0; i < n; i++) {
             sT[i].clear();
         }
 
-        const std::vector<std::set<size_t> > jacSparsity = model_.JacobianSparsitySet();
+        const std::vector<std::set<size_t> > jacSparsity = model_->JacobianSparsitySet();
 
         // S(x)^T = ( R * f'(x) )^T = f'(x)^T * R^T
         CppAD::cg::multMatrixTransMatrixSparsity(jacSparsity, rT, sT, m, n, q);
@@ -148,14 +156,14 @@ public:
                         const CppAD::vector<std::set<size_t> >& r,
                         const CppAD::vector<std::set<size_t> >& u,
                         CppAD::vector<std::set<size_t> >& v) override {
-        size_t n = model_.Domain();
-        size_t m = model_.Range();
+        size_t n = model_->Domain();
+        size_t m = model_->Range();
 
         for (size_t i = 0; i < n; i++) {
             v[i].clear();
         }
 
-        const std::vector<std::set<size_t> > jacSparsity = model_.JacobianSparsitySet();
+        const std::vector<std::set<size_t> > jacSparsity = model_->JacobianSparsitySet();
 
         /**
          *  V(x)  =  f'^T(x) U(x)  +  Sum(  s(x)i  f''(x)  R   )
@@ -174,14 +182,14 @@ public:
 
         if (allSelected) {
             // TODO: use reverseTwo sparsity instead of the HessianSparsity (they can be different!!!)
-            std::vector<std::set<size_t> > sparsitySF2R = model_.HessianSparsitySet(); // f''(x)
+            std::vector<std::set<size_t> > sparsitySF2R = model_->HessianSparsitySet(); // f''(x)
             sparsitySF2R.resize(n);
             CppAD::cg::multMatrixMatrixSparsity(sparsitySF2R, r, v, n, n, q); // f''(x) * R
         } else {
             std::vector<std::set<size_t> > sparsitySF2R(n);
             for (size_t i = 0; i < m; i++) {
                 if (s[i]) {
-                    CppAD::cg::addMatrixSparsity(model_.HessianSparsitySet(i), sparsitySF2R); // f''_i(x)
+                    CppAD::cg::addMatrixSparsity(model_->HessianSparsitySet(i), sparsitySF2R); // f''_i(x)
                 }
             }
             CppAD::cg::multMatrixMatrixSparsity(sparsitySF2R, r, v, n, n, q); // f''(x) * R
diff --git a/include/cppad/cg/model/generic_model.hpp b/include/cppad/cg/model/generic_model.hpp
index 91fa9e6..bb4801b 100644
--- a/include/cppad/cg/model/generic_model.hpp
+++ b/include/cppad/cg/model/generic_model.hpp
@@ -41,6 +41,9 @@ public:
             _atomic(other._atomic),
             _evalAtomicForwardOne4CppAD(other._evalAtomicForwardOne4CppAD) {
         other._atomic = nullptr;
+        if (_atomic != nullptr) {
+            _atomic->setModel(*this);
+        }
     }
 
     inline virtual ~GenericModel() {
-- 
2.43.0


From b0e92976788b079f9055d6457a5a04e85d9fe484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 35/93] fix: SparseJacobian() with vectors refuses independents
 with the wrong size

---
 include/cppad/cg/model/functor_generic_model.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index a301c44..ea3d745 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -698,6 +698,7 @@ public:
         CPPADCG_ASSERT_KNOWN(_sparseJacobian != nullptr, "No sparse Jacobian function defined in the dynamic library")
         CPPADCG_ASSERT_KNOWN(_in.size() == 1, "The number of independent variable arrays is higher than 1,"
                              " please use the variable size methods")
+        CPPADCG_ASSERT_KNOWN(x.size() == _n, "Invalid independent array size")
         CPPADCG_ASSERT_KNOWN(_missingAtomicFunctions == 0, "Some atomic functions used by the compiled model have not been specified yet")
 
         unsigned long const* drow;
-- 
2.43.0


From fc65f4f6901b6265996f966193a83afb611beeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 36/93] fix: OpenMP evaluations do not print reports unless
 these are requested

---
 include/cppad/cg/model/threadpool/openmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/threadpool/openmp.c b/include/cppad/cg/model/threadpool/openmp.c
index cd1a3c4..6850026 100644
--- a/include/cppad/cg/model/threadpool/openmp.c
+++ b/include/cppad/cg/model/threadpool/openmp.c
@@ -22,7 +22,7 @@ enum ScheduleStrategy {SCHED_STATIC = 1,
                       };
 
 static volatile int cppadcg_openmp_enabled = 1; // false
-static volatile int cppadcg_openmp_verbose = 1; // false
+static volatile int cppadcg_openmp_verbose = 0; // false
 static volatile unsigned int cppadcg_openmp_n_threads = 2;
 
 static enum ScheduleStrategy schedule_strategy = SCHED_DYNAMIC;
-- 
2.43.0


From 25f56d5bdfc5ad31b4327cff197c081d828c2297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 37/93] fix: external models in second-order reverse mode
 accept first-order partials

---
 .../generic_model_external_function_wrapper.hpp   | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/generic_model_external_function_wrapper.hpp b/include/cppad/cg/model/generic_model_external_function_wrapper.hpp
index 465423b..3fb10b5 100644
--- a/include/cppad/cg/model/generic_model_external_function_wrapper.hpp
+++ b/include/cppad/cg/model/generic_model_external_function_wrapper.hpp
@@ -84,7 +84,6 @@ public:
             CPPADCG_ASSERT_KNOWN(tx[1].sparse, "independent array must be sparse");
             const Base* tx1 = static_cast<const Base*> (tx[1].data);
             CPPADCG_ASSERT_KNOWN(py[0].sparse, "dependent partials array must be sparse");
-            CPPADCG_ASSERT_KNOWN(py[0].nnz == 0, "first order dependent partials must be zero");
             CPPADCG_ASSERT_KNOWN(!py[1].sparse, "independent partials array must be dense");
             ArrayView<const Base> py2(static_cast<Base*> (py[1].data), py[1].size);
 
@@ -92,6 +91,20 @@ public:
                                tx[1].nnz, tx[1].idx, tx1,
                                pxb,
                                py2);
+
+            if (py[0].nnz > 0) {
+                // contribution from the partials of the zero-order coefficients
+                const Base* pyb = static_cast<const Base*> (py[0].data);
+                std::vector<Base> px0(model_->Domain());
+
+                model_->ReverseOne(x,
+                                   ArrayView<Base>(px0),
+                                   py[0].nnz, py[0].idx, pyb);
+
+                for (size_t j = 0; j < px0.size(); j++) {
+                    pxb[j] += px0[j];
+                }
+            }
             return true;
         }
 
-- 
2.43.0


From c442ad9b9d18744b6783d96eb54f1bd3683caa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 38/93] fix: models used as atomic functions provide every
 order and are not taken for parameters

---
 .../cppad/cg/model/atomic_generic_model.hpp   | 96 ++++++++++++++++++-
 1 file changed, 95 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/atomic_generic_model.hpp b/include/cppad/cg/model/atomic_generic_model.hpp
index 213f10c..eafbca8 100644
--- a/include/cppad/cg/model/atomic_generic_model.hpp
+++ b/include/cppad/cg/model/atomic_generic_model.hpp
@@ -65,8 +65,19 @@ public:
                  CppAD::vector<Base>& ty) override {
         if (p == 0) {
             model_->ForwardZero(vx, vy, tx, ty);
+            dependency(vx, vy);
             return true;
         } else if (p == 1) {
+            if (q == 0) {
+                // the zero-order coefficients were also requested
+                CppAD::vector<Base> x, y(model_->Range());
+                extractOrder(tx, 0, model_->Domain(), x);
+                model_->ForwardZero(vx, vy, x, y);
+                dependency(vx, vy);
+                for (size_t i = 0; i < y.size(); i++) {
+                    ty[i * 2] = y[i];
+                }
+            }
             model_->ForwardOne(tx, ty);
             return true;
         }
@@ -83,7 +94,7 @@ public:
             model_->ReverseOne(tx, ty, px, py);
             return true;
         } else if (p == 1) {
-            model_->ReverseTwo(tx, ty, px, py);
+            reverseTwo(tx, ty, px, py);
             return true;
         }
 
@@ -209,6 +220,89 @@ public:
         return true;
     }
 
+private:
+
+    /**
+     * The sparsity of the Jacobian does not include dependents which only
+     * depend on independents through comparisons (or sign()) and, therefore,
+     * it cannot be used to identify the parameters.
+     */
+    inline void dependency(const CppAD::vector<bool>& vx,
+                           CppAD::vector<bool>& vy) const {
+        bool variable = false;
+        for (size_t j = 0; j < vx.size() && !variable; j++) {
+            variable = vx[j];
+        }
+
+        for (size_t i = 0; i < vy.size() && variable; i++) {
+            vy[i] = true;
+        }
+    }
+
+    /**
+     * Second-order reverse mode.
+     * The second-order routine of the model only provides the contributions
+     * of py[i * 2 + 1] to px[j * 2] (second-order derivatives of the model);
+     * the remaining ones are determined with first-order reverse mode.
+     */
+    inline void reverseTwo(const CppAD::vector<Base>& tx,
+                           const CppAD::vector<Base>& ty,
+                           CppAD::vector<Base>& px,
+                           const CppAD::vector<Base>& py) {
+        const size_t n = model_->Domain();
+        const size_t m = model_->Range();
+
+        CppAD::vector<Base> py0, py1;
+        extractOrder(py, 0, m, py0);
+        extractOrder(py, 1, m, py1);
+
+        bool firstOrder = false;
+        for (size_t i = 0; i < m && !firstOrder; i++) {
+            firstOrder = py0[i] != Base(0);
+        }
+
+        if (!firstOrder && !model_->isReverseOneAvailable()) {
+            model_->ReverseTwo(tx, ty, px, py);
+            return;
+        }
+
+        CppAD::vector<Base> x, y, px0(n), px1(n), pySecond(py.size());
+        extractOrder(tx, 0, n, x);
+        extractOrder(ty, 0, m, y);
+
+        for (size_t i = 0; i < m; i++) {
+            pySecond[i * 2] = Base(0);
+            pySecond[i * 2 + 1] = py1[i];
+        }
+
+        model_->ReverseTwo(tx, ty, px, pySecond);
+        model_->ReverseOne(x, y, px1, py1);
+
+        for (size_t j = 0; j < n; j++) {
+            px[j * 2 + 1] = px1[j];
+        }
+
+        if (firstOrder) {
+            model_->ReverseOne(x, y, px0, py0);
+            for (size_t j = 0; j < n; j++) {
+                px[j * 2] += px0[j];
+            }
+        }
+    }
+
+    /**
+     * Provides the coefficients (of a total of two) with a given order
+     */
+    static inline void extractOrder(const CppAD::vector<Base>& from,
+                                    size_t order,
+                                    size_t size,
+                                    CppAD::vector<Base>& to) {
+        to.resize(size);
+        for (size_t i = 0; i < size; i++) {
+            to[i] = from[i * 2 + order];
+        }
+    }
+
 };
 
 } // END cg namespace
-- 
2.43.0


From 422f2a39d90e94be13f1f3cc8ae981ddae9090df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 39/93] fix: second-order reverse mode provides the partials of
 the first-order coefficients

---
 .../cppad/cg/model/atomic_generic_model.hpp   | 25 ++++++-------------
 .../cppad/cg/model/functor_generic_model.hpp  | 17 +++++++++++++
 include/cppad/cg/model/generic_model.hpp      | 15 ++++++-----
 3 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/include/cppad/cg/model/atomic_generic_model.hpp b/include/cppad/cg/model/atomic_generic_model.hpp
index eafbca8..fb8410c 100644
--- a/include/cppad/cg/model/atomic_generic_model.hpp
+++ b/include/cppad/cg/model/atomic_generic_model.hpp
@@ -241,9 +241,9 @@ private:
 
     /**
      * Second-order reverse mode.
-     * The second-order routine of the model only provides the contributions
-     * of py[i * 2 + 1] to px[j * 2] (second-order derivatives of the model);
-     * the remaining ones are determined with first-order reverse mode.
+     * The second-order routine of the model does not accept values in
+     * py[i * 2]; their contribution (to px[j * 2]) is determined with
+     * first-order reverse mode.
      */
     inline void reverseTwo(const CppAD::vector<Base>& tx,
                            const CppAD::vector<Base>& ty,
@@ -252,41 +252,32 @@ private:
         const size_t n = model_->Domain();
         const size_t m = model_->Range();
 
-        CppAD::vector<Base> py0, py1;
+        CppAD::vector<Base> py0;
         extractOrder(py, 0, m, py0);
-        extractOrder(py, 1, m, py1);
 
         bool firstOrder = false;
         for (size_t i = 0; i < m && !firstOrder; i++) {
             firstOrder = py0[i] != Base(0);
         }
 
-        if (!firstOrder && !model_->isReverseOneAvailable()) {
+        if (!firstOrder) {
             model_->ReverseTwo(tx, ty, px, py);
             return;
         }
 
-        CppAD::vector<Base> x, y, px0(n), px1(n), pySecond(py.size());
+        CppAD::vector<Base> x, y, px0(n), pySecond(py);
         extractOrder(tx, 0, n, x);
         extractOrder(ty, 0, m, y);
 
         for (size_t i = 0; i < m; i++) {
             pySecond[i * 2] = Base(0);
-            pySecond[i * 2 + 1] = py1[i];
         }
 
         model_->ReverseTwo(tx, ty, px, pySecond);
-        model_->ReverseOne(x, y, px1, py1);
+        model_->ReverseOne(x, y, px0, py0);
 
         for (size_t j = 0; j < n; j++) {
-            px[j * 2 + 1] = px1[j];
-        }
-
-        if (firstOrder) {
-            model_->ReverseOne(x, y, px0, py0);
-            for (size_t j = 0; j < n; j++) {
-                px[j * 2] += px0[j];
-            }
+            px[j * 2] += px0[j];
         }
     }
 
diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index ea3d745..3ca91a0 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -602,6 +602,23 @@ public:
 
         CPPADCG_ASSERT_KNOWN(ret != 1, "Second-order reverse mode failed: py[2*i] (i=0...m) must be zero.")
         CPPADCG_ASSERT_KNOWN(ret == 0, "Second-order reverse mode failed.")
+
+        if (_reverseOne != nullptr) {
+            // the partials of the first-order coefficients are required when
+            // this model is used inside other nonlinear functions
+            std::vector<Base> x(_n), y(_m), px1(_n), py1(_m);
+            for (size_t j = 0; j < _n; j++)
+                x[j] = tx[j * k1];
+            for (size_t i = 0; i < _m; i++) {
+                y[i] = ty[i * k1];
+                py1[i] = py[i * k1 + 1];
+            }
+
+            ReverseOne(ArrayView<const Base>(x), ArrayView<const Base>(y), ArrayView<Base>(px1), ArrayView<const Base>(py1));
+
+            for (size_t j = 0; j < _n; j++)
+                px[j * k1 + 1] = px1[j];
+        }
     }
 
     bool isSparseReverseTwoAvailable() override {
diff --git a/include/cppad/cg/model/generic_model.hpp b/include/cppad/cg/model/generic_model.hpp
index bb4801b..462a757 100644
--- a/include/cppad/cg/model/generic_model.hpp
+++ b/include/cppad/cg/model/generic_model.hpp
@@ -598,8 +598,9 @@ public:
      * This method can be used during the evaluation of the hessian when
      * the model is used through a user defined external/atomic AD function.
      * @warning do not used it as a generic reverse mode function!
-     * @warning only the values for px[j * (k+1)] are defined, since
-     *          px[j * (k+1) + 1] is not used during the hessian evaluation.
+     * @warning only the values for px[j * (k+1)] are defined when first-order
+     *          reverse mode is not available, otherwise px[j * (k+1) + 1]
+     *          holds the partials of the first-order coefficients.
      */
     template<typename VectorBase>
     inline VectorBase ReverseTwo(const VectorBase& tx,
@@ -616,8 +617,9 @@ public:
      * This method can be used during the evaluation of the hessian when
      * the model is used through a user defined external/atomic AD function.
      * @warning do not used it as a generic reverse mode function!
-     * @warning only the values for px[j * (k+1)] are defined, since
-     *          px[j * (k+1) + 1] is not used during the hessian evaluation.
+     * @warning only the values for px[j * (k+1)] are defined when first-order
+     *          reverse mode is not available, otherwise px[j * (k+1) + 1]
+     *          holds the partials of the first-order coefficients.
      */
     template<typename VectorBase>
     inline void ReverseTwo(const VectorBase& tx,
@@ -644,8 +646,9 @@ public:
      * This method can be used during the evaluation of the hessian when
      * the model is used through a user defined external/atomic AD function.
      * @warning do not used it as a generic reverse mode function!
-     * @warning only the values for px[j * (k+1)] are defined, since
-     *          px[j * (k+1) + 1] is not used during the hessian evaluation.
+     * @warning only the values for px[j * (k+1)] are defined when first-order
+     *          reverse mode is not available, otherwise px[j * (k+1) + 1]
+     *          holds the partials of the first-order coefficients.
      */
     virtual void ReverseTwo(ArrayView<const Base> tx,
                             ArrayView<const Base> ty,
-- 
2.43.0


From b22aa924d751a4ae6391516d394f24130ec21db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 40/93] fix: sparse forward/reverse calls of compiled models
 with loops start from cleared work memory

---
 include/cppad/cg/model/functor_generic_model.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/cg/model/functor_generic_model.hpp b/include/cppad/cg/model/functor_generic_model.hpp
index 3ca91a0..dc5d349 100644
--- a/include/cppad/cg/model/functor_generic_model.hpp
+++ b/include/cppad/cg/model/functor_generic_model.hpp
@@ -499,6 +499,7 @@ public:
                 continue; // no contribution (there is no function for this index)
 
             _inHess[1] = &tx1[ej];
+            std::fill(compressed, compressed + nnz, Base(0)); // the functions of models with loops only add to it
             int ret = (*_sparseForwardOne)(j, &_inHess[0], &_out[0], _atomicFuncArg);
 
             CPPADCG_ASSERT_KNOWN(ret == 0, "First-order forward mode failed.") // generic failure
@@ -568,6 +569,7 @@ public:
                 continue; // no contribution (there is no function for this index)
 
             _inHess[1] = &py[ei];
+            std::fill(compressed, compressed + nnz, Base(0)); // the functions of models with loops only add to it
             int ret = (*_sparseReverseOne)(i, &_inHess[0], &_out[0], _atomicFuncArg);
 
             CPPADCG_ASSERT_KNOWN(ret == 0, "First-order reverse mode failed.")
@@ -660,6 +662,7 @@ public:
                 continue; // no contribution (there is no function for this index)
 
             in[1] = &tx1[ej];
+            std::fill(compressed, compressed + nnz, Base(0)); // the functions of models with loops only add to it
             int ret = (*_sparseReverseTwo)(j, &in[0], &_out[0], _atomicFuncArg);
 
             CPPADCG_ASSERT_KNOWN(ret == 0, "Second-order reverse mode failed.") // generic failure
-- 
2.43.0


From a16818f874f13d67a824d2c9d595190d7fc5a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 41/93] fix: index operations of loops are never given a
 variable of their own

---
 include/cppad/cg/lang/c/language_c.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 3445e93..cfbc4fa 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1108,7 +1108,10 @@ protected:
                     op == CGOpCode::IndexAssign ||
                     op == CGOpCode::Assign ||
                     opCount >= _maxOperationsPerAssignment) &&
-                    op != CGOpCode::CondResult;
+                    op != CGOpCode::CondResult &&
+                    op != CGOpCode::Index &&
+                    op != CGOpCode::IndexDeclaration &&
+                    op != CGOpCode::IndexCondExpr;
         }
     }
 
-- 
2.43.0


From c50cb86067796907c95e76f5465af8ac1f1d1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 42/93] fix: dependents of loops reuse the variable already
 assigned to their expression

---
 include/cppad/cg/lang/c/language_c.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index cfbc4fa..20a6afd 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1898,7 +1898,16 @@ protected:
             }
 
             if (useArg) {
-                pushAssignment(node, arg); // ignore other arguments!
+                Node* argNode = arg.getOperation();
+                if (argNode != nullptr && getVariableID(*argNode) > 0) {
+                    // the value was already placed in a variable
+                    pushAssignmentStart(node);
+                    pushExpression(*argNode);
+                    pushAssignmentEnd(node);
+                    _streamStack.flush();
+                } else {
+                    pushAssignment(node, arg); // ignore other arguments!
+                }
                 return 1;
             }
         }
-- 
2.43.0


From 5a5186cf34e8a904c665534579c15d6cb002fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 43/93] fix: loop groups which provide no element of a sparse
 directional derivative are skipped

---
 include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
index a51536d..d22f6f6 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops.hpp
@@ -796,6 +796,8 @@ inline void determineForRevUsagePatterns(const std::map<LoopModel<Base>*, std::m
         for (const auto& itg : itlge.second) {
             size_t group = itg.first;
             const map<size_t, set<size_t> >& jcols2e = itg.second;
+            if (jcols2e.empty())
+                continue; // this group does not provide any element
 
             // group by number of iterations
             std::unique_ptr<ArrayGroup> data(new ArrayGroup());
-- 
2.43.0


From 10f36533b0bc3bfdc766767ccb45905c924a528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 44/93] fix: constant equations are not used in loops

---
 include/cppad/cg/patterns/dependent_pattern_matcher.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index cb6ef97..5692155 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -807,6 +807,11 @@ private:
                     continue;
                 }
 
+                // constants are not worth a loop
+                if (dependents_[iDepRef].isParameter()) {
+                    continue;
+                }
+
                 if (eqCurr_ == nullptr || !used.empty()) {
                     eqCurr_ = new EquationPattern<Base>(dependents_[iDepRef], iDepRef);
                     equations_.push_back(eqCurr_);
-- 
2.43.0


From 4a9bc16c30cfd5011f029c159b4d95fed7518ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 45/93] fix: loops are only merged when their equations agree
 on the independents of shared temporaries

---
 .../cg/patterns/dependent_pattern_matcher.hpp | 70 +++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index 5692155..1d4c5ac 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -632,9 +632,79 @@ private:
             if (!compatible) break;
         }
 
+        if (compatible) {
+            std::vector<EquationPattern<Base>*> eqs(loop1->equations.begin(), loop1->equations.end());
+            eqs.insert(eqs.end(), loop2->equations.begin(), loop2->equations.end());
+
+            compatible = areRelationsConsistent(eqs, eq2totalOps2validDeps, loopRelations);
+        }
+
         return compatible;
     }
 
+    /**
+     * Determines whether or not the dependents placed in the same iteration
+     * use the same indexed independents in all of the temporary variables
+     * shared by their equations.
+     */
+    inline bool areRelationsConsistent(const std::vector<EquationPattern<Base>*>& eqs,
+                                       const Eq2totalOps2validDepsType& eq2totalOps2validDeps,
+                                       const std::set<std::set<size_t>*>& loopRelations) const {
+        for (size_t i1 = 0; i1 < eqs.size(); ++i1) {
+            for (size_t i2 = i1 + 1; i2 < eqs.size(); ++i2) {
+                UniqueEquationPair<Base> eqRel(eqs[i1], eqs[i2]);
+
+                const auto itShared = eq2totalOps2validDeps.find(eqRel);
+                if (itShared == eq2totalOps2validDeps.end())
+                    continue; // nothing is shared between these equations
+
+                const EquationPattern<Base>& eq1 = *eqRel.eq1;
+                const EquationPattern<Base>& eq2 = *eqRel.eq2;
+
+                for (const auto& itOps : *itShared->second) {
+                    for (const auto& itDeps : itOps.second) {
+                        const auto& ref1 = eq1.operationEO2Reference.at(itDeps.first.first);
+                        const auto& ref2 = eq2.operationEO2Reference.at(itDeps.first.second);
+
+                        for (const auto& itTmp : *itDeps.second) {
+                            for (const OperationNode<Base>* op : eq1.findOperationsUsingIndependents(*itTmp.first)) {
+                                const auto it1 = eq1.indexedOpIndep.op2Arguments.find(ref1.at(op));
+                                const auto it2 = eq2.indexedOpIndep.op2Arguments.find(ref2.at(op));
+
+                                if (it1 == eq1.indexedOpIndep.op2Arguments.end() ||
+                                    it2 == eq2.indexedOpIndep.op2Arguments.end())
+                                    continue; // not indexed
+
+                                const auto& args1 = it1->second.arg2Independents;
+                                const auto& args2 = it2->second.arg2Independents;
+
+                                for (const std::set<size_t>* relation : loopRelations) {
+                                    for (size_t a = 0; a < args1.size() && a < args2.size(); ++a) {
+                                        const OperationNode<Base>* indep1 = nullptr;
+                                        const OperationNode<Base>* indep2 = nullptr;
+                                        for (size_t dep : *relation) {
+                                            const auto itDep1 = args1[a].find(dep);
+                                            if (itDep1 != args1[a].end())
+                                                indep1 = itDep1->second;
+                                            const auto itDep2 = args2[a].find(dep);
+                                            if (itDep2 != args2[a].end())
+                                                indep2 = itDep2->second;
+                                        }
+
+                                        if (indep1 != nullptr && indep2 != nullptr && indep1 != indep2)
+                                            return false;
+                                    }
+                                }
+                            }
+                        }
+                    }
+                }
+            }
+        }
+
+        return true;
+    }
+
     /**
      * Determines the relations between the dependents of two equation
      * patterns using two dependents as reference and the shared variables
-- 
2.43.0


From 421c3654fe51883d715e0916ed730e6cac9f555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 46/93] fix: the index of a loop is declared even if nothing in
 the loop uses it

---
 include/cppad/cg/code_handler_impl.hpp                | 3 +++
 include/cppad/cg/lang/c/language_c_index_patterns.hpp | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 1556ef2..256377d 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -914,6 +914,9 @@ void CodeHandler<Base>::markCodeBlockUsed(Node& root) {
             if (inode.isDefinedLocally()) {
                 _loops.indexes.insert(&inode.getIndex());
             }
+        } else if (op == CGOpCode::LoopStart) {
+            // the index of a loop might not be used inside it
+            _loops.indexes.insert(&static_cast<LoopStartOperationNode <Base>&> (code).getIndex());
         } else if (op == CGOpCode::LoopIndexedIndep || op == CGOpCode::LoopIndexedDep ||
                    op == CGOpCode::IndexAssign) {
             IndexPattern* ip;
diff --git a/include/cppad/cg/lang/c/language_c_index_patterns.hpp b/include/cppad/cg/lang/c/language_c_index_patterns.hpp
index ac94520..05c3106 100644
--- a/include/cppad/cg/lang/c/language_c_index_patterns.hpp
+++ b/include/cppad/cg/lang/c/language_c_index_patterns.hpp
@@ -87,6 +87,8 @@ inline void LanguageC<Base>::createIndexDeclaration() {
     if (_info == nullptr)
         return;
 
+    printRandomIndexPatternDeclaration(_ss, _spaces, _info->indexRandomPatterns);
+
     if (_info->indexes.empty())
         return;
 
@@ -94,8 +96,6 @@ inline void LanguageC<Base>::createIndexDeclaration() {
 
     bool first = true;
 
-    printRandomIndexPatternDeclaration(_ss, _spaces, _info->indexRandomPatterns);
-
     _ss << _spaces << U_INDEX_TYPE;
     for (const OperationNode<Base>* iti : _info->indexes) {
 
-- 
2.43.0


From 850bd3dd547b99412bb859ee1d2346903bff03ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 47/93] fix: every dependent of a loop equation is placed in
 exactly one iteration

---
 include/cppad/cg/patterns/loop.hpp | 69 +++++++++++++-----------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index 825894b..df8d86d 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -428,19 +428,9 @@ public:
 
             DependentIndexSorter depSorter(group, freeDependents, dep2Equation);
 
-            auto itDep = dependents.begin();
             size_t i = 0; // iteration counter
-            while (itDep != dependents.end()) {
-                size_t dep = *itDep;
-                itDep++;
-
-                if (iterationDependents_.size() <= i)
-                    iterationDependents_.resize(i + 1);
-                set<size_t>& itDepi = iterationDependents_[i];
-
-                if (relatedEqIterationDeps.size() <= i)
-                    relatedEqIterationDeps.resize(i + 1);
-                set<size_t>& ritDepi = relatedEqIterationDeps[i];
+            while (!dependents.empty()) {
+                size_t dep = *dependents.begin();
 
                 // this dependent might not be the best dependent if this equation is not present in all iterations
 
@@ -449,46 +439,45 @@ public:
                 dep = bestDep.first;
                 eq = bestDep.second;
 
+                // the dependents which must be in the same iteration
+                set<size_t> together;
+
                 long pos = group.findIndexedLinkedDependent(dep);
                 if (pos >= 0) {
                     // assign the dependent to the first iteration with all its relationships
-                    for (size_t dep2 : linkedDependents[pos]) {
-                        if (dep2 == *itDep) itDep++; //make sure the iterator is valid
-                        itDepi.insert(dep2);
-                        ritDepi.insert(dep2);
-                        dependents.erase(dep2);
-
-                        EquationPattern<Base>* eq2 = dep2Equation.at(dep2);
-                        std::vector<size_t>& eq2FreeDep = freeDependents[eq2];
-                        typename std::vector<size_t>::const_iterator itFreeDep2;
-                        itFreeDep2 = std::find(eq2FreeDep.cbegin(), eq2FreeDep.cend(), dep2); // consider using lower_bound instead
-                        CPPADCG_ASSERT_UNKNOWN(itFreeDep2 != eq2FreeDep.cend())
-
-                        eq2FreeDep.erase(itFreeDep2);
-                    }
-
-                    i++;
+                    together = linkedDependents[pos];
                 } else {
+                    together.insert(dep);
+                }
+
+                for (size_t dep2 : together) {
+                    dependents.erase(dep2);
+
+                    std::vector<size_t>& eq2FreeDep = freeDependents[dep2Equation.at(dep2)];
+                    auto itFreeDep2 = std::find(eq2FreeDep.begin(), eq2FreeDep.end(), dep2); // consider using lower_bound instead
+                    CPPADCG_ASSERT_UNKNOWN(itFreeDep2 != eq2FreeDep.end())
+                    eq2FreeDep.erase(itFreeDep2);
+                }
+
+                if (pos < 0) {
                     // maybe this dependent shares a non-indexed temporary variable
                     long posN = group.findNonIndexedLinkedRel(eq);
                     if (posN >= 0) {
                         // there are only non-indexed shared relations with other equations (delay processing...)
-                        dependents.erase(dep); // safe because of itDep++
                         nIndexedGroupPos2Eq2deps[posN][eq].insert(dep);
-                    } else {
-                        itDepi.insert(dep);
-                        ritDepi.insert(dep);
-
-                        std::vector<size_t>& eqFreeDep = freeDependents[eq];
-                        auto itFreeDep = find(eqFreeDep.begin(), eqFreeDep.end(), dep); // consider using lower_bound instead
-                        CPPADCG_ASSERT_UNKNOWN(itFreeDep != eqFreeDep.end())
-
-                        eqFreeDep.erase(itFreeDep);
-
-                        i++;
+                        continue;
                     }
                 }
 
+                if (iterationDependents_.size() <= i)
+                    iterationDependents_.resize(i + 1);
+                iterationDependents_[i].insert(together.begin(), together.end());
+
+                if (relatedEqIterationDeps.size() <= i)
+                    relatedEqIterationDeps.resize(i + 1);
+                relatedEqIterationDeps[i].insert(together.begin(), together.end());
+
+                i++;
             }
 
             /**
-- 
2.43.0


From 0e5255ac059027b750ee36f0871a655ea6fde059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 48/93] Revert "fix: loops are only merged when their equations
 agree on the independents of shared temporaries"

This reverts commit 4a9bc16c30cfd5011f029c159b4d95fed7518ed9.
---
 .../cg/patterns/dependent_pattern_matcher.hpp | 70 -------------------
 1 file changed, 70 deletions(-)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index 1d4c5ac..5692155 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -632,79 +632,9 @@ private:
             if (!compatible) break;
         }
 
-        if (compatible) {
-            std::vector<EquationPattern<Base>*> eqs(loop1->equations.begin(), loop1->equations.end());
-            eqs.insert(eqs.end(), loop2->equations.begin(), loop2->equations.end());
-
-            compatible = areRelationsConsistent(eqs, eq2totalOps2validDeps, loopRelations);
-        }
-
         return compatible;
     }
 
-    /**
-     * Determines whether or not the dependents placed in the same iteration
-     * use the same indexed independents in all of the temporary variables
-     * shared by their equations.
-     */
-    inline bool areRelationsConsistent(const std::vector<EquationPattern<Base>*>& eqs,
-                                       const Eq2totalOps2validDepsType& eq2totalOps2validDeps,
-                                       const std::set<std::set<size_t>*>& loopRelations) const {
-        for (size_t i1 = 0; i1 < eqs.size(); ++i1) {
-            for (size_t i2 = i1 + 1; i2 < eqs.size(); ++i2) {
-                UniqueEquationPair<Base> eqRel(eqs[i1], eqs[i2]);
-
-                const auto itShared = eq2totalOps2validDeps.find(eqRel);
-                if (itShared == eq2totalOps2validDeps.end())
-                    continue; // nothing is shared between these equations
-
-                const EquationPattern<Base>& eq1 = *eqRel.eq1;
-                const EquationPattern<Base>& eq2 = *eqRel.eq2;
-
-                for (const auto& itOps : *itShared->second) {
-                    for (const auto& itDeps : itOps.second) {
-                        const auto& ref1 = eq1.operationEO2Reference.at(itDeps.first.first);
-                        const auto& ref2 = eq2.operationEO2Reference.at(itDeps.first.second);
-
-                        for (const auto& itTmp : *itDeps.second) {
-                            for (const OperationNode<Base>* op : eq1.findOperationsUsingIndependents(*itTmp.first)) {
-                                const auto it1 = eq1.indexedOpIndep.op2Arguments.find(ref1.at(op));
-                                const auto it2 = eq2.indexedOpIndep.op2Arguments.find(ref2.at(op));
-
-                                if (it1 == eq1.indexedOpIndep.op2Arguments.end() ||
-                                    it2 == eq2.indexedOpIndep.op2Arguments.end())
-                                    continue; // not indexed
-
-                                const auto& args1 = it1->second.arg2Independents;
-                                const auto& args2 = it2->second.arg2Independents;
-
-                                for (const std::set<size_t>* relation : loopRelations) {
-                                    for (size_t a = 0; a < args1.size() && a < args2.size(); ++a) {
-                                        const OperationNode<Base>* indep1 = nullptr;
-                                        const OperationNode<Base>* indep2 = nullptr;
-                                        for (size_t dep : *relation) {
-                                            const auto itDep1 = args1[a].find(dep);
-                                            if (itDep1 != args1[a].end())
-                                                indep1 = itDep1->second;
-                                            const auto itDep2 = args2[a].find(dep);
-                                            if (itDep2 != args2[a].end())
-                                                indep2 = itDep2->second;
-                                        }
-
-                                        if (indep1 != nullptr && indep2 != nullptr && indep1 != indep2)
-                                            return false;
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-            }
-        }
-
-        return true;
-    }
-
     /**
      * Determines the relations between the dependents of two equation
      * patterns using two dependents as reference and the shared variables
-- 
2.43.0


From 385c9a10cf169e31df1775f9fca7acba0f525c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 49/93] Revert "fix: constant equations are not used in loops"

This reverts commit 10f36533b0bc3bfdc766767ccb45905c924a528a.
---
 include/cppad/cg/patterns/dependent_pattern_matcher.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index 5692155..cb6ef97 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -807,11 +807,6 @@ private:
                     continue;
                 }
 
-                // constants are not worth a loop
-                if (dependents_[iDepRef].isParameter()) {
-                    continue;
-                }
-
                 if (eqCurr_ == nullptr || !used.empty()) {
                     eqCurr_ = new EquationPattern<Base>(dependents_[iDepRef], iDepRef);
                     equations_.push_back(eqCurr_);
-- 
2.43.0


From 152b23ceda79071caadd97ed0535f7296e0ac7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 50/93] fix: loops are only merged when their equations agree
 on the independents of shared temporaries (not only when dependents are
 unrelated)

---
 .../cg/patterns/dependent_pattern_matcher.hpp | 81 +++++++++++++++++++
 1 file changed, 81 insertions(+)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index cb6ef97..1f7805d 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -632,9 +632,90 @@ private:
             if (!compatible) break;
         }
 
+        if (compatible) {
+            std::vector<EquationPattern<Base>*> eqs(loop1->equations.begin(), loop1->equations.end());
+            eqs.insert(eqs.end(), loop2->equations.begin(), loop2->equations.end());
+
+            compatible = areRelationsConsistent(eqs, eq2totalOps2validDeps, loopRelations);
+        }
+
         return compatible;
     }
 
+    /**
+     * Determines whether or not the dependents placed in the same iteration
+     * use the same indexed independents in all of the temporary variables
+     * shared by their equations.
+     */
+    inline bool areRelationsConsistent(const std::vector<EquationPattern<Base>*>& eqs,
+                                       const Eq2totalOps2validDepsType& eq2totalOps2validDeps,
+                                       const std::set<std::set<size_t>*>& loopRelations) const {
+        for (size_t i1 = 0; i1 < eqs.size(); ++i1) {
+            for (size_t i2 = i1 + 1; i2 < eqs.size(); ++i2) {
+                UniqueEquationPair<Base> eqRel(eqs[i1], eqs[i2]);
+
+                const auto itShared = eq2totalOps2validDeps.find(eqRel);
+                if (itShared == eq2totalOps2validDeps.end())
+                    continue; // nothing is shared between these equations
+
+                const EquationPattern<Base>& eq1 = *eqRel.eq1;
+                const EquationPattern<Base>& eq2 = *eqRel.eq2;
+
+                for (const auto& itOps : *itShared->second) {
+                    for (const auto& itDeps : itOps.second) {
+                        // are these dependents placed in the same iteration?
+                        bool together = false;
+                        for (const std::set<size_t>* relation : loopRelations) {
+                            if (relation->find(itDeps.first.first) != relation->end()) {
+                                together = relation->find(itDeps.first.second) != relation->end();
+                                break;
+                            }
+                        }
+                        if (!together)
+                            continue; // the temporary variable is not shared inside an iteration
+
+                        const auto& ref1 = eq1.operationEO2Reference.at(itDeps.first.first);
+                        const auto& ref2 = eq2.operationEO2Reference.at(itDeps.first.second);
+
+                        for (const auto& itTmp : *itDeps.second) {
+                            for (const OperationNode<Base>* op : eq1.findOperationsUsingIndependents(*itTmp.first)) {
+                                const auto it1 = eq1.indexedOpIndep.op2Arguments.find(ref1.at(op));
+                                const auto it2 = eq2.indexedOpIndep.op2Arguments.find(ref2.at(op));
+
+                                if (it1 == eq1.indexedOpIndep.op2Arguments.end() ||
+                                    it2 == eq2.indexedOpIndep.op2Arguments.end())
+                                    continue; // not indexed
+
+                                const auto& args1 = it1->second.arg2Independents;
+                                const auto& args2 = it2->second.arg2Independents;
+
+                                for (const std::set<size_t>* relation : loopRelations) {
+                                    for (size_t a = 0; a < args1.size() && a < args2.size(); ++a) {
+                                        const OperationNode<Base>* indep1 = nullptr;
+                                        const OperationNode<Base>* indep2 = nullptr;
+                                        for (size_t dep : *relation) {
+                                            const auto itDep1 = args1[a].find(dep);
+                                            if (itDep1 != args1[a].end())
+                                                indep1 = itDep1->second;
+                                            const auto itDep2 = args2[a].find(dep);
+                                            if (itDep2 != args2[a].end())
+                                                indep2 = itDep2->second;
+                                        }
+
+                                        if (indep1 != nullptr && indep2 != nullptr && indep1 != indep2)
+                                            return false;
+                                    }
+                                }
+                            }
+                        }
+                    }
+                }
+            }
+        }
+
+        return true;
+    }
+
     /**
      * Determines the relations between the dependents of two equation
      * patterns using two dependents as reference and the shared variables
-- 
2.43.0


From 1833830e972ff8820d2c3d0d76570a351b293d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 51/93] fix: loops of constant equations can be combined with
 other loops

---
 include/cppad/cg/patterns/dependent_pattern_matcher.hpp | 2 +-
 include/cppad/cg/patterns/loop.hpp                      | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index 1f7805d..7e35206 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -267,7 +267,7 @@ private:
             }
 
             // create a loop for this equation
-            auto* loop = new Loop<Base>(*eq);
+            auto* loop = new Loop<Base>(*eq, handler_);
             loops_.push_back(loop);
             equation2Loop_[eq] = loop;
         }
diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index df8d86d..69155ad 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -158,8 +158,9 @@ private:
     size_t idCounter_;
 public:
 
-    inline Loop(EquationPattern<Base>& eq) :
-        handlerOrig_(eq.depRef.getCodeHandler()),
+    inline Loop(EquationPattern<Base>& eq,
+                CodeHandler<Base>* handler) :
+        handlerOrig_(handler), // not determined with the equation since it might be a constant
         varId_(handlerOrig_ != nullptr ? new CodeHandlerVector<Base, size_t>(*handlerOrig_): nullptr),
         varIndexed_(handlerOrig_ != nullptr ? new CodeHandlerVector<Base, bool>(*handlerOrig_): nullptr),
         iterationCount_(0), // not known yet (only after all equations have been added)
-- 
2.43.0


From d0a9e6480bb1b378b8678d37ef8bf07acf6b9e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 52/93] fix: operations of a dependent play a single role in an
 equation pattern

---
 .../cppad/cg/patterns/equation_pattern.hpp    | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/patterns/equation_pattern.hpp b/include/cppad/cg/patterns/equation_pattern.hpp
index cc93376..a65be43 100644
--- a/include/cppad/cg/patterns/equation_pattern.hpp
+++ b/include/cppad/cg/patterns/equation_pattern.hpp
@@ -89,6 +89,11 @@ private:
     size_t currDep_;
     size_t minColor_;
     size_t cmpColor_;
+    /**
+     * operations which use independents in the dependent being compared ->
+     * operation in the reference dependent
+     */
+    std::map<const OperationNode<Base>*, const OperationNode<Base>*> currOp2Reference_;
 public:
 
     explicit EquationPattern(const CG<Base>& ref,
@@ -114,6 +119,7 @@ public:
         currDep_ = iDep2;
         minColor_ = minColor;
         cmpColor_ = minColor_;
+        currOp2Reference_.clear();
 
         bool equals = comparePath(depRef, dep2, iDep2, varColor);
 
@@ -342,7 +348,7 @@ private:
                 OperationNode<Base>* arg2Op = a2.getOperation();
                 bool related;
                 if (argRefOp->getOperationType() == CGOpCode::Inv) {
-                    related = saveIndependent(scRef, a, argRefOp, arg2Op);
+                    related = saveIndependent(scRef, sc2, a, argRefOp, arg2Op);
                 } else {
                     related = comparePath(argRefOp, arg2Op, dep2, varColor);
                 }
@@ -362,6 +368,7 @@ private:
     }
 
     bool saveIndependent(const OperationNode<Base>* parentOp,
+                         const OperationNode<Base>* parentOp2,
                          size_t argIndex,
                          const OperationNode<Base>* argRefOp,
                          const OperationNode<Base>* arg2Op) {
@@ -386,6 +393,23 @@ private:
         std::map<size_t, const OperationNode<Base>*>& dep2Indeps = opIndexedIndep.arg2Independents[argIndex];
         if (dep2Indeps.empty())
             dep2Indeps[depRefIndex] = argRefOp;
+
+        /**
+         * An operation can only play the role of a single operation of the
+         * other dependent, otherwise it would have to use different
+         * independents in the same iteration
+         */
+        const auto itCurr = dep2Indeps.find(currDep_);
+        if (itCurr != dep2Indeps.end() && itCurr->second != arg2Op)
+            return false;
+
+        const auto itRef = currOp2Reference_.find(parentOp2);
+        if (itRef == currOp2Reference_.end()) {
+            currOp2Reference_[parentOp2] = parentOp;
+        } else if (itRef->second != parentOp) {
+            return false;
+        }
+
         dep2Indeps[currDep_] = arg2Op;
 
         return true; // same pattern
-- 
2.43.0


From 07a88e444561fd628f2ef0c19dd9ecd8fbc175da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 53/93] fix: nodes shared by dependents are compared in each
 role of an equation pattern

---
 include/cppad/cg/patterns/equation_pattern.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/patterns/equation_pattern.hpp b/include/cppad/cg/patterns/equation_pattern.hpp
index a65be43..930bad8 100644
--- a/include/cppad/cg/patterns/equation_pattern.hpp
+++ b/include/cppad/cg/patterns/equation_pattern.hpp
@@ -94,6 +94,11 @@ private:
      * operation in the reference dependent
      */
     std::map<const OperationNode<Base>*, const OperationNode<Base>*> currOp2Reference_;
+    /**
+     * the pairs (operation in the reference dependent, operation in the other
+     * dependent) which were already compared
+     */
+    std::set<std::pair<const OperationNode<Base>*, const OperationNode<Base>*> > comparedNodes_;
 public:
 
     explicit EquationPattern(const CG<Base>& ref,
@@ -120,6 +125,7 @@ public:
         minColor_ = minColor;
         cmpColor_ = minColor_;
         currOp2Reference_.clear();
+        comparedNodes_.clear();
 
         bool equals = comparePath(depRef, dep2, iDep2, varColor);
 
@@ -301,9 +307,14 @@ private:
              *   where v1, v2, v3 have the same expression pattern but
              *   correspond to different nodes
              */
-            if (varColor[*sc2] == varColor[*scRef])
-                return true;
+            if (varColor[*sc2] == varColor[*scRef]) {
+                // nodes used by both dependents can have the same color without
+                // having been compared in these roles
+                if (comparedNodes_.find({scRef, sc2}) != comparedNodes_.end())
+                    return true;
+            }
         }
+        comparedNodes_.emplace(scRef, sc2);
         varColor[*scRef] = cmpColor_;
         varColor[*sc2] = cmpColor_;
         cmpColor_++;
-- 
2.43.0


From 96aff6872589116205a7f560f04aae08390d310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 54/93] fix: keep the non-indexed equation relations of merged
 loop groups

---
 include/cppad/cg/patterns/loop.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cppad/cg/patterns/loop.hpp b/include/cppad/cg/patterns/loop.hpp
index 69155ad..bdda74a 100644
--- a/include/cppad/cg/patterns/loop.hpp
+++ b/include/cppad/cg/patterns/loop.hpp
@@ -250,6 +250,9 @@ public:
         CPPADCG_ASSERT_UNKNOWN(iterationDependents_.empty())
 
         g.linkedEquationsByNonIndexed.insert(og.linkedEquationsByNonIndexed.begin(), og.linkedEquationsByNonIndexed.end());
+        g.linkedEquationsByNonIndexedRel.insert(g.linkedEquationsByNonIndexedRel.end(),
+                                                og.linkedEquationsByNonIndexedRel.begin(),
+                                                og.linkedEquationsByNonIndexedRel.end());
         for (EquationPattern<Base>* itNIndexed : indexedLoopRelations) {
             g.linkedEquationsByNonIndexed.erase(itNIndexed);
         }
-- 
2.43.0


From 4bd7e50604d4058b688ce2d5c4cf67d4a5cdf665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 55/93] fix: check the operations shared inside iterations
 before combining any loops

---
 .../cg/patterns/dependent_pattern_matcher.hpp | 151 +++++++++++-------
 1 file changed, 91 insertions(+), 60 deletions(-)

diff --git a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
index 7e35206..30fde31 100644
--- a/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
+++ b/include/cppad/cg/patterns/dependent_pattern_matcher.hpp
@@ -460,6 +460,20 @@ private:
                         canMerge = !find(loop1, loop2, incompatible_);
                     }
 
+                    if (canMerge) {
+                        // the iterations of both loops will be evaluated together
+                        std::vector<EquationPattern<Base>*> eqs(loop1->equations.begin(), loop1->equations.end());
+                        eqs.insert(eqs.end(), loop2->equations.begin(), loop2->equations.end());
+
+                        std::vector<set<size_t> > iterationDependents = loop1->getIterationDependents();
+                        for (size_t it = 0; it < iterationDependents.size(); ++it) {
+                            const set<size_t>& deps2 = loop2->getIterationDependents()[it];
+                            iterationDependents[it].insert(deps2.begin(), deps2.end());
+                        }
+
+                        canMerge = areRelationsConsistent(eqs, iterationDependents);
+                    }
+
                     if (canMerge) {
                         loop1->mergeEqGroups(*loop2);
                         loops_.erase(loops_.begin() + l2);
@@ -636,7 +650,21 @@ private:
             std::vector<EquationPattern<Base>*> eqs(loop1->equations.begin(), loop1->equations.end());
             eqs.insert(eqs.end(), loop2->equations.begin(), loop2->equations.end());
 
-            compatible = areRelationsConsistent(eqs, eq2totalOps2validDeps, loopRelations);
+            std::vector<std::set<size_t> > iterationDependents;
+            for (const set<size_t>* relation : loopRelations)
+                iterationDependents.push_back(*relation);
+
+            compatible = areRelationsConsistent(eqs, iterationDependents);
+
+            if (!compatible) {
+                // these equations must not end up in the same loop
+                for (const auto& itOps : totalOp2eq) {
+                    for (const auto& itEq : itOps.second) {
+                        incompatible_[itEq.first.eq1].insert(itEq.first.eq2);
+                        incompatible_[itEq.first.eq2].insert(itEq.first.eq1);
+                    }
+                }
+            }
         }
 
         return compatible;
@@ -644,69 +672,72 @@ private:
 
     /**
      * Determines whether or not the dependents placed in the same iteration
-     * use the same indexed independents in all of the temporary variables
-     * shared by their equations.
+     * use the same indexed independents in all of the operations shared by
+     * their equations.
+     *
+     * @param eqs The equations
+     * @param iterationDependents The dependents placed in each iteration
      */
     inline bool areRelationsConsistent(const std::vector<EquationPattern<Base>*>& eqs,
-                                       const Eq2totalOps2validDepsType& eq2totalOps2validDeps,
-                                       const std::set<std::set<size_t>*>& loopRelations) const {
+                                       const std::vector<std::set<size_t> >& iterationDependents) const {
+        using OpType = const OperationNode<Base>*;
+
         for (size_t i1 = 0; i1 < eqs.size(); ++i1) {
             for (size_t i2 = i1 + 1; i2 < eqs.size(); ++i2) {
-                UniqueEquationPair<Base> eqRel(eqs[i1], eqs[i2]);
-
-                const auto itShared = eq2totalOps2validDeps.find(eqRel);
-                if (itShared == eq2totalOps2validDeps.end())
-                    continue; // nothing is shared between these equations
-
-                const EquationPattern<Base>& eq1 = *eqRel.eq1;
-                const EquationPattern<Base>& eq2 = *eqRel.eq2;
-
-                for (const auto& itOps : *itShared->second) {
-                    for (const auto& itDeps : itOps.second) {
-                        // are these dependents placed in the same iteration?
-                        bool together = false;
-                        for (const std::set<size_t>* relation : loopRelations) {
-                            if (relation->find(itDeps.first.first) != relation->end()) {
-                                together = relation->find(itDeps.first.second) != relation->end();
-                                break;
-                            }
-                        }
-                        if (!together)
-                            continue; // the temporary variable is not shared inside an iteration
-
-                        const auto& ref1 = eq1.operationEO2Reference.at(itDeps.first.first);
-                        const auto& ref2 = eq2.operationEO2Reference.at(itDeps.first.second);
-
-                        for (const auto& itTmp : *itDeps.second) {
-                            for (const OperationNode<Base>* op : eq1.findOperationsUsingIndependents(*itTmp.first)) {
-                                const auto it1 = eq1.indexedOpIndep.op2Arguments.find(ref1.at(op));
-                                const auto it2 = eq2.indexedOpIndep.op2Arguments.find(ref2.at(op));
-
-                                if (it1 == eq1.indexedOpIndep.op2Arguments.end() ||
-                                    it2 == eq2.indexedOpIndep.op2Arguments.end())
-                                    continue; // not indexed
-
-                                const auto& args1 = it1->second.arg2Independents;
-                                const auto& args2 = it2->second.arg2Independents;
-
-                                for (const std::set<size_t>* relation : loopRelations) {
-                                    for (size_t a = 0; a < args1.size() && a < args2.size(); ++a) {
-                                        const OperationNode<Base>* indep1 = nullptr;
-                                        const OperationNode<Base>* indep2 = nullptr;
-                                        for (size_t dep : *relation) {
-                                            const auto itDep1 = args1[a].find(dep);
-                                            if (itDep1 != args1[a].end())
-                                                indep1 = itDep1->second;
-                                            const auto itDep2 = args2[a].find(dep);
-                                            if (itDep2 != args2[a].end())
-                                                indep2 = itDep2->second;
-                                        }
-
-                                        if (indep1 != nullptr && indep2 != nullptr && indep1 != indep2)
-                                            return false;
-                                    }
-                                }
-                            }
+                const EquationPattern<Base>& eq1 = *eqs[i1];
+                const EquationPattern<Base>& eq2 = *eqs[i2];
+                const auto& indexed1 = eq1.indexedOpIndep.op2Arguments;
+                const auto& indexed2 = eq2.indexedOpIndep.op2Arguments;
+
+                /**
+                 * find the operations (of the reference dependents) which are
+                 * shared inside an iteration
+                 */
+                std::vector<std::pair<size_t, size_t> > depPairs;
+                std::set<std::pair<OpType, OpType> > shared;
+
+                for (const std::set<size_t>& deps : iterationDependents) {
+                    auto itDep1 = deps.begin();
+                    while (itDep1 != deps.end() && eq1.dependents.find(*itDep1) == eq1.dependents.end())
+                        ++itDep1;
+                    auto itDep2 = deps.begin();
+                    while (itDep2 != deps.end() && eq2.dependents.find(*itDep2) == eq2.dependents.end())
+                        ++itDep2;
+
+                    if (itDep1 == deps.end() || itDep2 == deps.end())
+                        continue; // not all equations are present in this iteration
+
+                    depPairs.emplace_back(*itDep1, *itDep2);
+
+                    const auto itRef1 = eq1.operationEO2Reference.find(*itDep1);
+                    const auto itRef2 = eq2.operationEO2Reference.find(*itDep2);
+                    if (itRef1 == eq1.operationEO2Reference.end() || itRef2 == eq2.operationEO2Reference.end())
+                        continue; // no operations
+
+                    for (const auto& itOp1 : itRef1->second) {
+                        if (indexed1.find(itOp1.second) == indexed1.end())
+                            continue; // not indexed
+
+                        const auto itOp2 = itRef2->second.find(itOp1.first);
+                        if (itOp2 != itRef2->second.end() && indexed2.find(itOp2->second) != indexed2.end())
+                            shared.emplace(itOp1.second, itOp2->second);
+                    }
+                }
+
+                /**
+                 * these operations must use the same independents in all iterations
+                 */
+                for (const auto& ops : shared) {
+                    const auto& args1 = indexed1.at(ops.first).arg2Independents;
+                    const auto& args2 = indexed2.at(ops.second).arg2Independents;
+
+                    for (size_t a = 0; a < args1.size() && a < args2.size(); ++a) {
+                        for (const auto& depPair : depPairs) {
+                            const auto it1 = args1[a].find(depPair.first);
+                            const auto it2 = args2[a].find(depPair.second);
+
+                            if (it1 != args1[a].end() && it2 != args2[a].end() && it1->second != it2->second)
+                                return false;
                         }
                     }
                 }
-- 
2.43.0


From b9d33b002d84235f3d5b53da20bf69161aa6d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 56/93] fix: temporaries only required by some loop iterations
 are evaluated inside all conditions that use them

---
 include/cppad/cg/code_handler.hpp      |  35 ++-
 include/cppad/cg/code_handler_impl.hpp | 295 +++++++++++--------------
 2 files changed, 162 insertions(+), 168 deletions(-)

diff --git a/include/cppad/cg/code_handler.hpp b/include/cppad/cg/code_handler.hpp
index 9217273..e512a4a 100644
--- a/include/cppad/cg/code_handler.hpp
+++ b/include/cppad/cg/code_handler.hpp
@@ -70,6 +70,23 @@ protected:
      * scope of each managed operation node
      */
     CodeHandlerVector<Base, ScopeIDType> _scope;
+    /**
+     * the iterations of a loop where the value of a node is required
+     */
+    struct UsageRegion {
+        /**
+         * the iteration index of the loop (null when required by all iterations)
+         */
+        IndexOperationNode<Base>* index{nullptr};
+        /**
+         * the iteration ranges
+         */
+        std::vector<size_t> ranges;
+    };
+    /**
+     * nodes with values which are only required by some iterations of a loop
+     */
+    std::map<const Node*, UsageRegion> _usageRegions;
     /**
      * evaluation order of each managed node
      * (zero means that an evaluation position was never assigned)
@@ -633,12 +650,22 @@ protected:
                                               ScopeIDType oldScope,
                                               ScopeIDType commonScopeColor);
 
-    inline void updateTemporaryVarInDiffScopes(Node& code);
+    /**
+     * Determines for which iterations of a loop the value of each node is
+     * required.
+     */
+    inline void findUsageRegions(const ArrayView<CGB>& dependent);
 
-    inline void restoreTemporaryVar(Node& tmp);
+    /**
+     * Whether or not the value of a node is only required by some of the
+     * iterations of a loop.
+     */
+    inline bool isRequiredBySomeIterationsOnly(const Node& node) const;
 
-    inline void restoreTemporaryVar(Node* tmp,
-                                    Node* opClone);
+    /**
+     * Whether or not a scope is a branch of an if/else
+     */
+    inline bool isIfBranchScope(ScopeIDType scope) const;
 
     inline void updateVarScopeUsage(Node* node,
                                     ScopeIDType usageScope,
diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 256377d..a1ca941 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -333,6 +333,8 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
 
     _minTemporaryVarID = _idCount;
 
+    findUsageRegions(dependent);
+
     /**
      * determine the number of times each variable is used
      */
@@ -519,6 +521,7 @@ void CodeHandler<Base>::reset() {
     deleteManagedNodes(0, _codeBlocks.size()); // also clears the vectors with information on nodes
     _independentVariables.clear();
     _alteredNodes.clear();
+    _usageRegions.clear();
     _variableDependencies.clear();
     _variableOrder.clear();
     _scopedVariableOrder.resize(1);
@@ -849,14 +852,9 @@ void CodeHandler<Base>::markCodeBlockUsed(Node& root) {
                 /**
                  * this node was previously altered to ensure that the
                  * evaluation of the expression is only performed for the
-                 * required iterations
+                 * required iterations (all of the iterations which use it
+                 * were already considered)
                  */
-                if (_scope[code] == _currentScopeColor) {
-                    // outside an if (defined for all iterations)
-                    restoreTemporaryVar(code);
-                } else {
-                    updateTemporaryVarInDiffScopes(code);
-                }
 
             } else if (_scope[code] != _currentScopeColor && op != CGOpCode::LoopIndexedIndep) {
                 ScopeIDType oldScope = _scope[code];
@@ -970,47 +968,130 @@ inline bool CodeHandler<Base>::handleTemporaryVarInDiffScopes(Node& code,
     CPPADCG_ASSERT_KNOWN(code.getOperationType() != CGOpCode::ArrayCreation, "Not supported yet")
     CPPADCG_ASSERT_KNOWN(code.getOperationType() != CGOpCode::SparseArrayCreation, "Not supported yet")
 
+    if (isIfBranchScope(_currentScopeColor) && isIfBranchScope(oldScope)) {
+        // used in 2 different if/else branches
+
+        if (isRequiredBySomeIterationsOnly(code)) {
+            const UsageRegion& region = _usageRegions.at(&code);
+
+            replaceWithConditionalTempVar(code, *region.index, region.ranges, oldScope, newScope);
+            return true;
+        }
+    }
+
+    return false;
+}
+
+template<class Base>
+inline bool CodeHandler<Base>::isIfBranchScope(ScopeIDType scope) const {
+    if (_scopes[scope].empty() || _scopes[scope].back().end == nullptr)
+        return false;
+
+    CGOpCode op = _scopes[scope].back().end->getOperationType();
+    return op == CGOpCode::EndIf || op == CGOpCode::Else || op == CGOpCode::ElseIf;
+}
+
+template<class Base>
+inline bool CodeHandler<Base>::isRequiredBySomeIterationsOnly(const Node& node) const {
+    return _usageRegions.find(&node) != _usageRegions.end();
+}
+
+template<class Base>
+inline void CodeHandler<Base>::findUsageRegions(const ArrayView<CGB>& dependent) {
+    _usageRegions.clear();
+
+    bool conditions = false;
+    for (const Node* node : _codeBlocks) {
+        if (node->getOperationType() == CGOpCode::CondResult) {
+            conditions = true;
+            break;
+        }
+    }
+    if (!conditions)
+        return;
+
     /**
-     * does this variable require a condition based on indexes?
+     * order where every node is placed after the nodes it depends on
      */
-    std::vector<size_t> iterationRegions;
-    Node* bScopeNewEnd = _scopes[_currentScopeColor].back().end;
-    Node* bScopeOldEnd = _scopes[oldScope].back().end;
+    std::vector<Node*> order;
+    std::vector<std::pair<Node*, size_t> > stack;
 
-    CGOpCode bNewOp = bScopeNewEnd->getOperationType();
-    CGOpCode bOldOp = bScopeOldEnd->getOperationType();
+    startNewOperationTreeVisit();
 
-    if ((bNewOp == CGOpCode::EndIf || bNewOp == CGOpCode::Else || bNewOp == CGOpCode::ElseIf) &&
-        (bOldOp == CGOpCode::EndIf || bOldOp == CGOpCode::Else || bOldOp == CGOpCode::ElseIf)) {
-        // used in 2 different if/else branches
+    size_t m = dependent.size();
+    for (size_t i = 0; i < m; i++) {
+        Node* root = dependent[i].getOperationNode();
+        if (root == nullptr || isVisited(*root))
+            continue;
+
+        markVisited(*root);
+        stack.emplace_back(root, 0);
+        while (!stack.empty()) {
+            Node* node = stack.back().first;
+            size_t a = stack.back().second++;
+            if (a < node->getArguments().size()) {
+                Node* arg = node->getArguments()[a].getOperation();
+                if (arg != nullptr && !isVisited(*arg)) {
+                    markVisited(*arg);
+                    stack.emplace_back(arg, 0);
+                }
+            } else {
+                order.push_back(node);
+                stack.pop_back();
+            }
+        }
+    }
 
-        /**
-         * determine the iterations which use this temporary variable
-         */
-        Node* bScopeNew = bScopeNewEnd->getArguments()[0].getOperation();
-        Node* bScopeOld = bScopeOldEnd->getArguments()[0].getOperation();
+    /**
+     * the iterations required by the nodes which use a node
+     */
+    std::set<const Node*> allIterations;
+    for (size_t i = 0; i < m; i++) {
+        if (dependent[i].getOperationNode() != nullptr)
+            allIterations.insert(dependent[i].getOperationNode());
+    }
 
-        IndexOperationNode<Base>* newIterIndexOp = nullptr;
-        iterationRegions = ifBranchIterationRanges(bScopeNew, newIterIndexOp);
-        CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
+    for (auto it = order.rbegin(); it != order.rend(); ++it) {
+        Node* node = *it;
+        CGOpCode op = node->getOperationType();
 
-        IndexOperationNode<Base>* oldIterIndexOp = nullptr;
-        std::vector<size_t> oldIterRegions = ifBranchIterationRanges(bScopeOld, oldIterIndexOp);
-        combineOverlapingIterationRanges(iterationRegions, oldIterRegions);
-        CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
-        CPPADCG_ASSERT_UNKNOWN(newIterIndexOp != nullptr && newIterIndexOp == oldIterIndexOp)
+        UsageRegion region; // empty -> all iterations
+        if (op == CGOpCode::CondResult) {
+            region.ranges = ifBranchIterationRanges(node->getArguments()[0].getOperation(), region.index);
+            if (region.ranges.size() == 2 && region.ranges[0] == 0 &&
+                region.ranges[1] == (std::numeric_limits<size_t>::max)()) {
+                region.index = nullptr;
+            }
+        } else if (op != CGOpCode::LoopEnd && op != CGOpCode::EndIf && op != CGOpCode::ElseIf && op != CGOpCode::Else &&
+                   allIterations.find(node) == allIterations.end()) {
+            const auto itRegion = _usageRegions.find(node);
+            if (itRegion != _usageRegions.end())
+                region = itRegion->second;
+        }
 
-        if (iterationRegions.size() > 2 ||
-            iterationRegions[0] != 0 ||
-            iterationRegions[1] != (std::numeric_limits<size_t>::max)()) {
-            // this temporary variable is not used by all iterations
+        for (const Arg& arg : node->getArguments()) {
+            const Node* argNode = arg.getOperation();
+            if (argNode == nullptr || allIterations.find(argNode) != allIterations.end())
+                continue;
 
-            replaceWithConditionalTempVar(code, *newIterIndexOp, iterationRegions, oldScope, newScope);
-            return true;
+            if (region.index != nullptr) {
+                UsageRegion& argRegion = _usageRegions[argNode];
+                if (argRegion.index == nullptr)
+                    argRegion.index = region.index;
+
+                if (argRegion.index == region.index) {
+                    combineOverlapingIterationRanges(argRegion.ranges, region.ranges);
+                    if (argRegion.ranges.size() != 2 || argRegion.ranges[0] != 0 ||
+                        argRegion.ranges[1] != (std::numeric_limits<size_t>::max)()) {
+                        continue;
+                    }
+                }
+            }
+
+            _usageRegions.erase(argNode);
+            allIterations.insert(argNode);
         }
     }
-
-    return false;
 }
 
 template<class Base>
@@ -1098,132 +1179,6 @@ inline void CodeHandler<Base>::replaceWithConditionalTempVar(Node& tmp,
     _alteredNodes.push_back(std::make_pair(&tmp, opClone));
 }
 
-template<class Base>
-inline void CodeHandler<Base>::updateTemporaryVarInDiffScopes(Node& code) {
-    if (_scope[code] != _currentScopeColor) {
-        return; //nothing to change
-    }
-
-    /**
-     * does this variable require a condition based on indexes?
-     */
-    if (_currentScopeColor == 0)
-        restoreTemporaryVar(code);
-
-    /**
-     * Determine if it should be moved into a different scope
-     * so that it is defined before being used in both
-     * scopes
-     */
-    ScopeIDType oldScope = _scope[code];
-
-    size_t depth = findFirstDifferentScope(oldScope, _currentScopeColor);
-
-    // update the scope where it should be defined
-    ScopeIDType newScope = depth == 0 ? 0 : _scopes[_currentScopeColor][depth - 1].color;
-
-    /**
-     * does this variable require a condition based on indexes?
-     */
-    std::vector<size_t> iterationRegions;
-    Node* bScopeNewEnd = _scopes[_currentScopeColor].back().end;
-    Node* endif = code.getArguments()[0].getOperation();
-    CPPADCG_ASSERT_UNKNOWN(endif->getOperationType() == CGOpCode::EndIf)
-    Node* bScopeOldEnd = _scopes[_scope[*endif]].back().end;
-
-    CGOpCode bNewOp = bScopeNewEnd->getOperationType();
-
-    if (bNewOp == CGOpCode::EndIf || bNewOp == CGOpCode::Else || bNewOp == CGOpCode::ElseIf) {
-        // used in 2 different if/else branches
-
-        /**
-         * determine the iterations which use this temporary variable
-         */
-        Node* bScopeNew = bScopeNewEnd->getArguments()[0].getOperation();
-        Node* bScopeOld = bScopeOldEnd->getArguments()[0].getOperation();
-
-        IndexOperationNode<Base>* newIterIndexOp = nullptr;
-        iterationRegions = ifBranchIterationRanges(bScopeNew, newIterIndexOp);
-        CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
-
-        IndexOperationNode<Base>* oldIterIndexOp = nullptr;
-        const std::vector<size_t> oldIterRegions = ifBranchIterationRanges(bScopeOld, oldIterIndexOp);
-        combineOverlapingIterationRanges(iterationRegions, oldIterRegions);
-        CPPADCG_ASSERT_UNKNOWN(iterationRegions.size() >= 2)
-        CPPADCG_ASSERT_UNKNOWN(newIterIndexOp != nullptr && newIterIndexOp == oldIterIndexOp)
-
-        if (iterationRegions.size() == 2 &&
-            (iterationRegions[0] == 0 ||
-             iterationRegions[1] == (std::numeric_limits<size_t>::max)())) {
-            // this temporary variable is used by all iterations
-            // there is no need for an 'if'
-            restoreTemporaryVar(code);
-
-        } else if (oldIterRegions != iterationRegions) {
-            Node* cond = bScopeOld->getArguments()[0].getOperation();
-            CPPADCG_ASSERT_UNKNOWN(cond->getOperationType() == CGOpCode::IndexCondExpr)
-            cond->getInfo() = iterationRegions;
-        }
-
-    }
-
-    if (oldScope != newScope) {
-        _scope[code] = newScope;
-        /**
-         * Must also update the scope of the arguments used by this operation
-         */
-        const std::vector<Arg>& cargs = code.getArguments();
-        size_t aSize = cargs.size();
-        for (size_t a = 0; a < aSize; a++) {
-            updateVarScopeUsage(cargs[a].getOperation(), newScope, oldScope);
-        }
-    }
-
-}
-
-template<class Base>
-inline void CodeHandler<Base>::restoreTemporaryVar(Node& tmp) {
-    CPPADCG_ASSERT_UNKNOWN(tmp.getOperationType() == CGOpCode::Tmp && !tmp.getInfo().empty())
-
-    Node* endIf = tmp.getArguments()[1].getOperation();
-    Node* ifAssign = endIf->getArguments()[1].getOperation();
-    Node* tmpAssign = ifAssign->getArguments()[1].getOperation();
-    Node* opClone = tmpAssign->getArguments()[1].getOperation();
-    tmp.setOperation(opClone->getOperationType(), opClone->getArguments());
-    tmp.getInfo() = opClone->getInfo();
-
-    _scope[tmp] = _currentScopeColor;
-
-    /**
-     * Must also update the scope of the arguments used by this operation
-     */
-    const std::vector<Arg>& args = tmp.getArguments();
-    size_t aSize = args.size();
-    for (size_t a = 0; a < aSize; a++) {
-        updateVarScopeUsage(args[a].getOperation(), _currentScopeColor, _scope[*opClone]);
-    }
-}
-
-template<class Base>
-inline void CodeHandler<Base>::restoreTemporaryVar(Node* tmp,
-                                                   Node* opClone) {
-    CPPADCG_ASSERT_UNKNOWN(tmp->getOperationType() == CGOpCode::Tmp && !tmp->getInfo().empty())
-
-    tmp->setOperation(opClone->getOperationType(), opClone->getArguments());
-    tmp->getInfo() = opClone->getInfo();
-
-    _scope[*tmp] = _currentScopeColor;
-
-    /**
-     * Must also update the scope of the arguments used by this operation
-     */
-    const std::vector<Arg>& args = tmp->getArguments();
-    size_t aSize = args.size();
-    for (size_t a = 0; a < aSize; a++) {
-        updateVarScopeUsage(args[a].getOperation(), _currentScopeColor, _scope[*opClone]);
-    }
-}
-
 template<class Base>
 inline void CodeHandler<Base>::updateVarScopeUsage(Node* node,
                                                    ScopeIDType usageScope,
@@ -1235,7 +1190,7 @@ inline void CodeHandler<Base>::updateVarScopeUsage(Node* node,
     ScopeIDType oldScope = _scope[*node];
     ScopeIDType newScope;
 
-    if (oldScope == oldUsageScope) {
+    if (oldScope == oldUsageScope && getTotalUsageCount(*node) <= 1) {
         newScope = usageScope;
     } else {
         size_t depth = findFirstDifferentScope(oldScope, usageScope);
@@ -1246,6 +1201,18 @@ inline void CodeHandler<Base>::updateVarScopeUsage(Node* node,
     if (newScope == oldScope)
         return;
 
+    CGOpCode op = node->getOperationType();
+    if (newScope != usageScope && isIfBranchScope(oldScope) && isIfBranchScope(usageScope) &&
+        op != CGOpCode::Inv && op != CGOpCode::Index && op != CGOpCode::IndexDeclaration &&
+        op != CGOpCode::LoopIndexedIndep && op != CGOpCode::ArrayCreation && op != CGOpCode::SparseArrayCreation &&
+        isRequiredBySomeIterationsOnly(*node)) {
+        // used in 2 different if/else branches
+        const UsageRegion& region = _usageRegions.at(node);
+
+        replaceWithConditionalTempVar(*node, *region.index, region.ranges, oldScope, newScope);
+        return;
+    }
+
     _scope[*node] = newScope;
 
     const std::vector<Arg>& args = node->getArguments();
-- 
2.43.0


From ccbdcf5f602c708db3b68090a83d2fd9c5cc368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 57/93] fix: Hessian elements of loops outside the requested
 rows are not read

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
index 09a99b3..eb134ee 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
@@ -460,7 +460,7 @@ void ModelCSourceGen<Base>::analyseSparseHessianWithLoops(const std::vector<size
                         if (posJ2 != nullptr) {
                             const set<size_t>& hessRow = group.getHessianSparsity()[posK1->tape];
 
-                            if (hessRow.find(j2) != hessRow.end()) {
+                            if (hessRow.find(posJ2->tape) != hessRow.end()) {
                                 if (!jInNonIndexed) {
                                     jInNonIndexed = true;
                                     CPPADCG_ASSERT_KNOWN(loopInfo.nonIndexedNonIndexedPosition.find(orig) == loopInfo.nonIndexedNonIndexedPosition.end(),
-- 
2.43.0


From 954aa6a875cdb0e2b43e4e72b2186f70d627af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 58/93] fix: conditional Hessian loop contributions to reverse
 two are multiplied by tx1

---
 .../cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
index 6ba1b34..19af76b 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_rev2.hpp
@@ -846,7 +846,7 @@ std::vector<std::pair<CG<Base>, IndexPattern*> > generateReverseTwoGroupOps(Code
             if (iterations.size() != group.iterations.size()) {
                 CGBase v = createReverseMode2Contribution(handler, group,
                                                           *pattern, iterations,
-                                                          gHessVal,
+                                                          gHessVal * tx1,
                                                           *info.iterationIndexOp,
                                                           group.ifElses);
                 addContribution(indexedLoopResults, hessLE, make_pair(v, (IndexPattern*) nullptr));
-- 
2.43.0


From 4073351f9db96513bc31022c9c63cae44bb2719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 59/93] fix: forward one of loops without derivatives for a
 shared variable

---
 .../model/patterns/model_c_source_gen_loops_for1.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
index 0a676c0..7875e53 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_for1.hpp
@@ -780,10 +780,14 @@ std::vector<std::pair<CG<Base>, IndexPattern*> > generateForwardOneGroupOps(Code
                 if (pos != nullptr) {
                     size_t tapeJ = pos->tape;
 
-                    const map<size_t, CG<Base> >& dyiDxJtapeT = dyiDxtapeT.at(tapeJ);
-                    typename map<size_t, CGBase>::const_iterator itVal = dyiDxJtapeT.find(tapeI);
-                    if (itVal != dyiDxJtapeT.end()) {
-                        jacVal += itVal->second;
+                    // (it might not be required by any of the requested elements)
+                    const auto itDyiDxJtapeT = dyiDxtapeT.find(tapeJ);
+                    if (itDyiDxJtapeT != dyiDxtapeT.end()) {
+                        const map<size_t, CG<Base> >& dyiDxJtapeT = itDyiDxJtapeT->second;
+                        typename map<size_t, CGBase>::const_iterator itVal = dyiDxJtapeT.find(tapeI);
+                        if (itVal != dyiDxJtapeT.end()) {
+                            jacVal += itVal->second;
+                        }
                     }
                 }
 
-- 
2.43.0


From d7605b4477d779cffa287b93009f947faec4cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:47 +0000
Subject: [PATCH 60/93] fix: size of the temporary array used by loop groups
 with ordered elements

---
 include/cppad/cg/model/model_c_source_gen_hes.hpp | 3 ++-
 include/cppad/cg/model/model_c_source_gen_jac.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/model/model_c_source_gen_hes.hpp b/include/cppad/cg/model/model_c_source_gen_hes.hpp
index efc25e3..4f560eb 100644
--- a/include/cppad/cg/model/model_c_source_gen_hes.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_hes.hpp
@@ -277,7 +277,8 @@ void ModelCSourceGen<Base>::generateSparseHessianSourceFromRev2(MultiThreadingTy
     size_t maxCompressedSize = 0;
 
     for (const auto& it : hessInfo) {
-        if (it.second.indexes.size() > maxCompressedSize && !it.second.ordered)
+        // groups of loops also use the temporary array for ordered elements
+        if (it.second.indexes.size() > maxCompressedSize && (!it.second.ordered || !_loopTapes.empty()))
             maxCompressedSize = it.second.indexes.size();
     }
 
diff --git a/include/cppad/cg/model/model_c_source_gen_jac.hpp b/include/cppad/cg/model/model_c_source_gen_jac.hpp
index 47a54a4..1666a56 100644
--- a/include/cppad/cg/model/model_c_source_gen_jac.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_jac.hpp
@@ -216,7 +216,8 @@ void ModelCSourceGen<Base>::generateSparseJacobianForRevSource(bool forward,
     map<size_t, bool>::const_iterator itOrd;
     map<size_t, std::vector<size_t> >::const_iterator it;
     for (const auto& it : jacInfo) {
-        if (it.second.indexes.size() > maxCompressedSize && !it.second.ordered)
+        // groups of loops also use the temporary array for ordered elements
+        if (it.second.indexes.size() > maxCompressedSize && (!it.second.ordered || !_loopTapes.empty()))
             maxCompressedSize = it.second.indexes.size();
     }
 
-- 
2.43.0


From 9c5ff58a7976f9d2c55790db9ce5acd03656b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 61/93] fix: CG<double> can be compared with a double using
 operator!=

---
 include/cppad/cg/compare.hpp    | 3 ++-
 include/cppad/cg/declare_cg.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/compare.hpp b/include/cppad/cg/compare.hpp
index 5321b05..1f1ba04 100644
--- a/include/cppad/cg/compare.hpp
+++ b/include/cppad/cg/compare.hpp
@@ -74,7 +74,8 @@ inline bool operator==(const Base& left, const CG<Base>& right) {
 }
 
 template<class Base>
-inline bool operator!=(const CG<Base>& left, Base right) {
+inline typename std::enable_if<!std::is_same<Base, double>::value, bool>::type
+operator!=(const CG<Base>& left, const Base& right) {
     if (left.isParameter()) {
         return left.getValue() != right;
     } else {
diff --git a/include/cppad/cg/declare_cg.hpp b/include/cppad/cg/declare_cg.hpp
index 5ce4d22..aee77f4 100644
--- a/include/cppad/cg/declare_cg.hpp
+++ b/include/cppad/cg/declare_cg.hpp
@@ -259,7 +259,8 @@ template<class Base>
 bool operator==(const Base& left, const CG<Base>& right);
 
 template<class Base>
-bool operator!=(const CG<Base>& left, Base right);
+typename std::enable_if<!std::is_same<Base, double>::value, bool>::type
+operator!=(const CG<Base>& left, const Base& right);
 
 template<class Base>
 bool operator!=(const Base& left, const CG<Base>& right);
-- 
2.43.0


From 38280674579df9b3b181d465878f72e1e8f052df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 62/93] fix: pow() of variables from different code handlers is
 refused

---
 include/cppad/cg/math_other.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cppad/cg/math_other.hpp b/include/cppad/cg/math_other.hpp
index 6c9d90c..a6603b8 100644
--- a/include/cppad/cg/math_other.hpp
+++ b/include/cppad/cg/math_other.hpp
@@ -26,18 +26,16 @@ inline CppAD::cg::CG<Base> pow(const CppAD::cg::CG<Base>& x,
         return CG<Base> (pow(x.getValue(), y.getValue()));
     }
 
-    CodeHandler<Base>* handler;
     if (y.isParameter()) {
         if (y.isIdenticalZero()) {
             return CG<Base> (Base(1.0)); // does not consider that x could be infinity
         } else if (y.isIdenticalOne()) {
             return CG<Base> (x);
         }
-        handler = x.getCodeHandler();
-    } else {
-        handler = y.getCodeHandler();
     }
 
+    CodeHandler<Base>* handler = getHandler(x, y);
+
     CG<Base> result(*handler->makeNode(CGOpCode::Pow,{x.argument(), y.argument()}));
     if (x.isValueDefined() && y.isValueDefined()) {
         result.setValue(pow(x.getValue(), y.getValue()));
-- 
2.43.0


From 0bf90c5f4fdd324d6c28e8b8bd55fd6eed44d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 63/93] fix: compound assignments between variables from
 different code handlers are refused

---
 include/cppad/cg/arithmetic_assign.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/cppad/cg/arithmetic_assign.hpp b/include/cppad/cg/arithmetic_assign.hpp
index 78f5a77..1bc9cc3 100644
--- a/include/cppad/cg/arithmetic_assign.hpp
+++ b/include/cppad/cg/arithmetic_assign.hpp
@@ -41,8 +41,7 @@ inline CG<Base>& CG<Base>::operator+=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else { // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right); // throws if they are different
         }
 
         std::unique_ptr<Base> value;
@@ -74,8 +73,7 @@ inline CG<Base>& CG<Base>::operator-=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else { // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right); // throws if they are different
         }
 
         std::unique_ptr<Base> value;
@@ -117,8 +115,7 @@ inline CG<Base>& CG<Base>::operator*=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else {  // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right); // throws if they are different
         }
 
         std::unique_ptr<Base> value;
@@ -154,8 +151,7 @@ inline CG<Base>& CG<Base>::operator/=(const CG<Base> &right) {
             handler = node_->getCodeHandler();
 
         } else {  // both left and right hand sides are variables
-            CPPADCG_ASSERT_UNKNOWN(node_->getCodeHandler() == right.node_->getCodeHandler());
-            handler = node_->getCodeHandler();
+            handler = getHandler(*this, right); // throws if they are different
         }
 
         std::unique_ptr<Base> value;
-- 
2.43.0


From cfc15381ef0b4942daf1cafe723eceb3ed11cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 64/93] fix: path searches report every path to the target, up
 to the limit

---
 include/cppad/cg/operation_path.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/cppad/cg/operation_path.hpp b/include/cppad/cg/operation_path.hpp
index b6b7dab..c8c3e75 100644
--- a/include/cppad/cg/operation_path.hpp
+++ b/include/cppad/cg/operation_path.hpp
@@ -157,6 +157,9 @@ inline void CodeHandler<Base>::findPaths(SourceCodePath& currPath,
         // any match would have been saved in found
         std::vector<SourceCodePath> pathsFromNode = findPathsFromNode(found, *currNode);
         for (const SourceCodePath& pathFromNode : pathsFromNode) {
+            if (found.size() == max) {
+                return;
+            }
             SourceCodePath newPath(currPath.size() + pathFromNode.size());
             std::copy(currPath.begin(), currPath.end(), newPath.begin());
             std::copy(pathFromNode.begin(), pathFromNode.end(), newPath.begin() + currPath.size());
@@ -187,19 +190,22 @@ inline std::vector<std::vector<OperationPathNode<Base> > > CodeHandler<Base>::fi
                                                                                                 OperationNode<Base>& node) {
 
     std::vector<SourceCodePath> foundPaths;
-    std::set<size_t> argsFound;
+    SourceCodePath prefix; // path used to reach the node when it was searched
 
     for (const SourceCodePath& path : nodePaths) {
-        size_t size = path.size();
-        for (size_t i = 0; i < size - 1; i++) {
-            const OperationPathNode<Base>& pnode = path[i];
-            if (pnode.node == &node) {
-                if (argsFound.find(path[i + 1].argIndex) == argsFound.end()) {
-                    foundPaths.push_back(SourceCodePath(path.begin() + i + 1, path.end()));
-                    argsFound.insert(path[i + 1].argIndex);
+        if (prefix.empty()) {
+            for (size_t i = 0; i + 1 < path.size(); i++) {
+                if (path[i].node == &node) {
+                    prefix.assign(path.begin(), path.begin() + i + 1);
+                    break;
                 }
             }
         }
+        // each of the paths found during that search corresponds to a different path from the node
+        if (!prefix.empty() && path.size() > prefix.size() &&
+            std::equal(prefix.begin(), prefix.end(), path.begin())) {
+            foundPaths.push_back(SourceCodePath(path.begin() + prefix.size(), path.end()));
+        }
     }
 
     return foundPaths;
-- 
2.43.0


From 421049aaedfda4b0230e12c55750e3781efad43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 65/93] fix: code generation with independents replaced by
 constants

---
 include/cppad/cg/code_handler_impl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index a1ca941..de5480e 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -788,7 +788,9 @@ void CodeHandler<Base>::markCodeBlockUsed(Node& root) {
              * correct usage count at the operation that it points to
              */
             CPPADCG_ASSERT_UNKNOWN(code.getArguments().size() == 1)
-            stack.emplace_back(code, 0, _currentScopeColor);
+            if (code.getArguments()[0].getOperation() != nullptr) {
+                stack.emplace_back(code, 0, _currentScopeColor);
+            }
 
             return false;
 
-- 
2.43.0


From bb4e63cb7d8480dc556ecec8bc06d4c37cdb8530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 66/93] fix: solving var == 0 for the variable gives zero

---
 include/cppad/cg/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/solver.hpp b/include/cppad/cg/solver.hpp
index 681e654..b54acbf 100644
--- a/include/cppad/cg/solver.hpp
+++ b/include/cppad/cg/solver.hpp
@@ -28,7 +28,7 @@ inline CG<Base> CodeHandler<Base>::solveFor(OperationNode<Base>& expression,
 
     // find code in expression
     if (&expression == &var)
-        return CG<Base>(var);
+        return CG<Base>(Base(0.0)); // var == 0
 
     size_t bifurcations = (std::numeric_limits<size_t>::max)(); // so that it is possible to enter the loop
 
-- 
2.43.0


From d8f99f3c8cd53995ebec1027f8a8154a0ef837c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 67/93] fix: sign of collected variables in subtractions

---
 include/cppad/cg/collect_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/collect_variable.hpp b/include/cppad/cg/collect_variable.hpp
index e4d6953..e4bc462 100644
--- a/include/cppad/cg/collect_variable.hpp
+++ b/include/cppad/cg/collect_variable.hpp
@@ -164,7 +164,7 @@ inline CG<Base> CodeHandler<Base>::collectVariableAddSub(const SourceCodePath& p
                 continue;
 
             } else if (op == CGOpCode::Sub) {
-                if (p[i - 1].argIndex == 1)
+                if (p[i].argIndex == 1)
                     c = -c;
                 else
                     continue;
-- 
2.43.0


From fa6453190786e9e5580687916f67b25ccad45739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 68/93] fix: dependents which are aliases are generated as what
 they refer to

---
 include/cppad/cg/code_handler_impl.hpp | 29 ++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index de5480e..2851701 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -271,6 +271,35 @@ void CodeHandler<Base>::generateCode(std::ostream& out,
                                      std::vector<std::string>& atomicFunctions,
                                      const std::string& jobName) {
     using namespace std::chrono;
+
+    /**
+     * dependents which are an alias of a regular operation are defined by
+     * that operation (the results of loops are left as they are)
+     */
+    std::vector<CGB> noAlias;
+    for (size_t i = 0; i < dependent.size(); i++) {
+        const Node* node = dependent[i].getOperationNode();
+        if (node == nullptr || node->getOperationType() != CGOpCode::Alias)
+            continue;
+
+        CGB value;
+        while (node != nullptr && node->getOperationType() == CGOpCode::Alias) {
+            value = CGB(node->getArguments()[0]);
+            node = value.getOperationNode();
+        }
+        if (node != nullptr && node->getOperationType() >= CGOpCode::DependentMultiAssign)
+            continue;
+
+        if (noAlias.empty())
+            noAlias.assign(dependent.begin(), dependent.end());
+        noAlias[i] = value;
+    }
+    if (!noAlias.empty()) {
+        ArrayView<CGB> deps(noAlias);
+        generateCode(out, lang, deps, nameGen, atomicFunctions, jobName);
+        return;
+    }
+
     steady_clock::time_point beginTime;
 
     if (_jobTimer != nullptr) {
-- 
2.43.0


From 23be9770a80c85d4a9b86f8cce0070182e6ea3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 69/93] fix: sign() of substituted variables in generated C
 code

---
 include/cppad/cg/lang/c/language_c.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 20a6afd..873df7f 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1526,9 +1526,11 @@ protected:
         CPPADCG_ASSERT_KNOWN(op.getArguments().size() == 1, "Invalid number of arguments for sign() function")
         CPPADCG_ASSERT_UNKNOWN(op.getArguments()[0].getOperation() != nullptr)
 
-        // a variable, or an array element (which does not require a variable)
+        // a variable, or an array element or an alias (which do not require a variable)
         const Arg& arg = op.getArguments()[0];
-        CPPADCG_ASSERT_UNKNOWN(getVariableID(*arg.getOperation()) > 0 || arg.getOperation()->getOperationType() == CGOpCode::ArrayElement)
+        CPPADCG_ASSERT_UNKNOWN(getVariableID(*arg.getOperation()) > 0 ||
+                               arg.getOperation()->getOperationType() == CGOpCode::ArrayElement ||
+                               arg.getOperation()->getOperationType() == CGOpCode::Alias)
 
         _streamStack << "(";
         push(arg);
-- 
2.43.0


From f7636ef4033c6f921680dbecfc0545c02b2532c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 70/93] fix: constants which are not finite are written as
 valid C

---
 include/cppad/cg/lang/c/language_c.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 873df7f..9795145 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -2110,6 +2110,16 @@ protected:
         os << std::setprecision(_parameterPrecision) << value;
 
         std::string number = os.str();
+
+        // values which are not finite require the macros from math.h
+        if (number.find("nan") != std::string::npos) {
+            output << "NAN";
+            return;
+        } else if (number.find("inf") != std::string::npos) {
+            output << (number[0] == '-' ? "-INFINITY" : "INFINITY");
+            return;
+        }
+
         output << number;
 
         if (std::abs(value) > Base(0) && value != Base(1) && value != Base(-1)) {
-- 
2.43.0


From d52c9139341e4d52128a20bac384b6ae40b84b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 71/93] fix: ModelLibraryCSourceGen::saveSources() compiles

---
 include/cppad/cg/model/model_library_c_source_gen_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
index 6d8804a..f473f09 100644
--- a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
@@ -79,7 +79,7 @@ void ModelLibraryCSourceGen<Base>::saveSources(const std::string& sourcesFolder)
 
     // save/generate model sources
     for (const auto& it : _models) {
-        saveSources(sourcesFolder, it.second->getSources());
+        saveSources(sourcesFolder, it.second->getSources(_multiThreading, this));
     }
 
     // save/generate library sources
-- 
2.43.0


From 90165a9ab2f53e0cba6049986cd80bd15a97a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 72/93] fix: dynamic libraries with a custom extension are
 loaded from the file that was created

---
 .../linux/linux_dynamic_model_library_processor.hpp   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp
index 3f8d074..9993f14 100644
--- a/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp
+++ b/include/cppad/cg/model/dynamic_lib/linux/linux_dynamic_model_library_processor.hpp
@@ -22,12 +22,19 @@ namespace cg {
 template<class Base>
 std::unique_ptr<DynamicLib<Base>> DynamicModelLibraryProcessor<Base>::loadDynamicLibrary() {
     std::unique_ptr<DynamicLib<Base>> lib;
+
+    std::string libname = _libraryName;
+    if (_customLibExtension != nullptr)
+        libname += *_customLibExtension;
+    else
+        libname += system::SystemInfo<>::DYNAMIC_LIB_EXTENSION;
+
     const auto it = _options.find("dlOpenMode");
     if (it == _options.end()) {
-        lib.reset(new LinuxDynamicLib<Base>(_libraryName + system::SystemInfo<>::DYNAMIC_LIB_EXTENSION));
+        lib.reset(new LinuxDynamicLib<Base>(libname));
     } else {
         int dlOpenMode = std::stoi(it->second);
-        lib.reset(new LinuxDynamicLib<Base>(_libraryName + system::SystemInfo<>::DYNAMIC_LIB_EXTENSION, dlOpenMode));
+        lib.reset(new LinuxDynamicLib<Base>(libname, dlOpenMode));
     }
     return lib;
 }
-- 
2.43.0


From 0fdb1677b6d148f2103d276f469cc22c73d4f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 73/93] fix: generating bitcode does not change the flags of
 the compiler

---
 include/cppad/cg/model/compiler/clang_compiler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cppad/cg/model/compiler/clang_compiler.hpp b/include/cppad/cg/model/compiler/clang_compiler.hpp
index af5c2fc..d220037 100644
--- a/include/cppad/cg/model/compiler/clang_compiler.hpp
+++ b/include/cppad/cg/model/compiler/clang_compiler.hpp
@@ -79,6 +79,7 @@ public:
             this->_compileFlags.pop_back();
             throw;
         }
+        this->_compileFlags.pop_back();
     }
 
     /**
-- 
2.43.0


From d167b7666f8686a4d5c3a54e47cbbd3e8197c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 74/93] fix: sources are generated again after a failed
 generation

---
 .../cg/model/model_c_source_gen_impl.hpp      | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/model/model_c_source_gen_impl.hpp b/include/cppad/cg/model/model_c_source_gen_impl.hpp
index c178270..f0d0cc0 100644
--- a/include/cppad/cg/model/model_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_c_source_gen_impl.hpp
@@ -92,7 +92,24 @@ template<class Base>
 const std::map<std::string, std::string>& ModelCSourceGen<Base>::getSources(MultiThreadingType multiThreadingType,
                                                                             JobTimer* timer) {
     if (_sources.empty()) {
-        generateSources(multiThreadingType, timer);
+        try {
+            generateSources(multiThreadingType, timer);
+        } catch (...) {
+            // do not use an incomplete set of sources
+            _sources.clear();
+            for (LoopModel<Base>* it : _loopTapes)
+                delete it;
+            _loopTapes.clear();
+            delete _funNoLoops;
+            _funNoLoops = nullptr;
+            _loopFor1Groups.clear();
+            _nonLoopFor1Elements.clear();
+            _loopRev1Groups.clear();
+            _nonLoopRev1Elements.clear();
+            _loopRev2Groups.clear();
+            _nonLoopRev2Elements.clear();
+            throw;
+        }
     }
     return _sources;
 }
-- 
2.43.0


From af540c79e19a1226b9a80f202d145d1f11e2b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 75/93] fix: failures to save source files are reported

---
 .../cg/model/compiler/abstract_c_compiler.hpp  |  5 +----
 .../model/model_library_c_source_gen_impl.hpp  |  6 +-----
 .../save_files_model_library_processor.hpp     |  6 +-----
 include/cppad/cg/model/system/system.hpp       | 18 ++++++++++++++++++
 4 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/cppad/cg/model/compiler/abstract_c_compiler.hpp b/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
index d50f0b5..ee9b27d 100644
--- a/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
+++ b/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
@@ -217,11 +217,8 @@ public:
 
             if (_saveToDiskFirst) {
                 // save a new source file to disk
-                std::ofstream sourceFile;
                 std::string srcfile = system::createPath(_sourcesFolder, it->first);
-                sourceFile.open(srcfile.c_str());
-                sourceFile << it->second;
-                sourceFile.close();
+                system::saveTextFile(srcfile, it->second);
 
                 // compile the file
                 compileFile(srcfile, file, posIndepCode);
diff --git a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
index f473f09..6829f30 100644
--- a/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
+++ b/include/cppad/cg/model/model_library_c_source_gen_impl.hpp
@@ -94,11 +94,7 @@ void ModelLibraryCSourceGen<Base>::saveSources(const std::string& sourcesFolder,
                                                const std::map<std::string, std::string>& sources) {
     for (const auto& it : sources) {
         // for debugging purposes only
-        std::ofstream sourceFile;
-        std::string file = system::createPath(sourcesFolder, it.first);
-        sourceFile.open(file.c_str());
-        sourceFile << it.second;
-        sourceFile.close();
+        system::saveTextFile(system::createPath(sourcesFolder, it.first), it.second);
     }
 }
 
diff --git a/include/cppad/cg/model/save_files_model_library_processor.hpp b/include/cppad/cg/model/save_files_model_library_processor.hpp
index 69a3850..d710d07 100644
--- a/include/cppad/cg/model/save_files_model_library_processor.hpp
+++ b/include/cppad/cg/model/save_files_model_library_processor.hpp
@@ -42,11 +42,7 @@ public:
     inline void saveSourcesTo(const std::string& sourcesFolder) {
 
         auto saveFile = [&](const std::string& filename, const std::string& source){
-            std::ofstream sourceFile;
-            std::string file = system::createPath(sourcesFolder, filename);
-            sourceFile.open(file.c_str());
-            sourceFile << source;
-            sourceFile.close();
+            system::saveTextFile(system::createPath(sourcesFolder, filename), source);
         };
 
         system::createFolder(sourcesFolder);
diff --git a/include/cppad/cg/model/system/system.hpp b/include/cppad/cg/model/system/system.hpp
index ad3cba9..f2aca8d 100644
--- a/include/cppad/cg/model/system/system.hpp
+++ b/include/cppad/cg/model/system/system.hpp
@@ -96,6 +96,24 @@ inline bool isDirectory(const std::string& path);
  */
 inline bool isFile(const std::string& path);
 
+/**
+ * Saves text in a file
+ *
+ * @param path the path to the file (replaced if it already exists)
+ * @param content the text
+ * @throws CGException on failure to save the complete text
+ */
+inline void saveTextFile(const std::string& path,
+                         const std::string& content) {
+    std::ofstream file;
+    file.open(path.c_str());
+    file << content;
+    file.close();
+    if (!file) {
+        throw CGException("Failed to save file '", path, "'");
+    }
+}
+
 /**
  * Calls an external executable (system dependent).
  * In the case of an error during execution an exception will be thrown.
-- 
2.43.0


From 4e8640640e28ad8599af65322e235dba2bb92ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 76/93] fix: files in the place of the temporary folder are
 reported and not deleted

---
 include/cppad/cg/model/compiler/abstract_c_compiler.hpp | 3 ++-
 include/cppad/cg/model/system/linux_system.hpp          | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cppad/cg/model/compiler/abstract_c_compiler.hpp b/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
index ee9b27d..d63c69c 100644
--- a/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
+++ b/include/cppad/cg/model/compiler/abstract_c_compiler.hpp
@@ -257,7 +257,8 @@ public:
         _ofiles.clear();
         _sfiles.clear();
 
-        remove(this->_tmpFolder.c_str());
+        if (system::isDirectory(this->_tmpFolder))
+            remove(this->_tmpFolder.c_str());
     }
 
     virtual ~AbstractCCompiler() {
diff --git a/include/cppad/cg/model/system/linux_system.hpp b/include/cppad/cg/model/system/linux_system.hpp
index 1b0c932..15682c5 100644
--- a/include/cppad/cg/model/system/linux_system.hpp
+++ b/include/cppad/cg/model/system/linux_system.hpp
@@ -108,9 +108,9 @@ inline std::string getWorkingDirectory() {
 inline void createFolder(const std::string& folder) {
     int ret = mkdir(folder.c_str(), 0755);
     if (ret == -1) {
-        if (errno != EEXIST) {
-            const char* error = strerror(errno);
-            throw CGException("Failed to create directory '", folder + "': ", error);
+        int error = errno;
+        if (error != EEXIST || !isDirectory(folder)) {
+            throw CGException("Failed to create directory '", folder + "': ", strerror(error));
         }
     }
 }
-- 
2.43.0


From fefa04732adde9be4721ed610680dfa07fc5efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 77/93] fix: compilers which end before reading the source do
 not terminate the program

---
 .../cppad/cg/model/system/linux_system.hpp    | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/model/system/linux_system.hpp b/include/cppad/cg/model/system/linux_system.hpp
index 15682c5..682da46 100644
--- a/include/cppad/cg/model/system/linux_system.hpp
+++ b/include/cppad/cg/model/system/linux_system.hpp
@@ -21,6 +21,7 @@
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <sys/stat.h>
+#include <signal.h>
 
 namespace CppAD {
 namespace cg {
@@ -325,9 +326,33 @@ inline void callExecutable(const std::string& executable,
         // close read end of pipe
         pipeSrc.read.close();
         //Pipe source to the executable
-        ssize_t writeFlag = write(pipeSrc.write.fd, stdInMessage->c_str(), stdInMessage->size());
-        if (writeFlag == -1)
-            writeError = readCErrorMsg() + " ";
+        // (an executable which ends before reading everything must not
+        //  terminate this process with SIGPIPE)
+        sigset_t sigPipe, sigOld, sigPending;
+        sigemptyset(&sigPipe);
+        sigaddset(&sigPipe, SIGPIPE);
+        sigpending(&sigPending);
+        bool wasPending = sigismember(&sigPending, SIGPIPE) == 1;
+        pthread_sigmask(SIG_BLOCK, &sigPipe, &sigOld);
+
+        size_t written = 0;
+        while (written < stdInMessage->size()) {
+            ssize_t n = write(pipeSrc.write.fd, stdInMessage->c_str() + written, stdInMessage->size() - written);
+            if (n >= 0) {
+                written += n;
+            } else if (errno != EINTR) {
+                bool brokenPipe = errno == EPIPE;
+                writeError = readCErrorMsg() + " ";
+                sigpending(&sigPending);
+                if (brokenPipe && !wasPending && sigismember(&sigPending, SIGPIPE) == 1) {
+                    int sig;
+                    sigwait(&sigPipe, &sig); // discard the signal
+                }
+                break;
+            }
+        }
+
+        pthread_sigmask(SIG_SETMASK, &sigOld, nullptr);
         pipeSrc.write.close();
     }
 
-- 
2.43.0


From b35069eff5c7943872a18bc2d7bee528b6b2fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 78/93] fix: executables with long outputs do not block

---
 include/cppad/cg/model/system/linux_system.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cppad/cg/model/system/linux_system.hpp b/include/cppad/cg/model/system/linux_system.hpp
index 682da46..767f257 100644
--- a/include/cppad/cg/model/system/linux_system.hpp
+++ b/include/cppad/cg/model/system/linux_system.hpp
@@ -367,9 +367,8 @@ inline void callExecutable(const std::string& executable,
         ssize_t n;
         if(stdOutErrMessage != nullptr) {
             while ((n = read(pipeStdOutErr.read.fd, buffer, sizeof (buffer))) > 0) {
+                // read everything (the executable would have to wait otherwise)
                 messageStdOutErr.write(buffer, n);
-                size += n;
-                if (size > 1e4) break;
             }
         }
 
-- 
2.43.0


From a6bba24468ac0fd31372c10f45a6e836bb7b28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 79/93] fix: signals handled by the program do not interrupt
 the execution of compilers

---
 .../cppad/cg/model/system/linux_system.hpp    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/cppad/cg/model/system/linux_system.hpp b/include/cppad/cg/model/system/linux_system.hpp
index 767f257..823b869 100644
--- a/include/cppad/cg/model/system/linux_system.hpp
+++ b/include/cppad/cg/model/system/linux_system.hpp
@@ -321,6 +321,7 @@ inline void callExecutable(const std::string& executable,
 #endif
     };
 
+    char buffer[128];
     std::string writeError;
     if (stdInMessage != nullptr) {
         // close read end of pipe
@@ -357,28 +358,40 @@ inline void callExecutable(const std::string& executable,
     }
 
     //Wait for the executable to exit
+    auto readPipe = [&buffer](int fd) {
+        ssize_t n;
+        do {
+            n = read(fd, buffer, sizeof (buffer));
+        } while (n < 0 && errno == EINTR);
+        return n;
+    };
+
     int status;
     // Read message from the child
     std::ostringstream messageErr;
     std::ostringstream messageStdOutErr;
     size_t size = 0;
-    char buffer[128];
     do {
         ssize_t n;
         if(stdOutErrMessage != nullptr) {
-            while ((n = read(pipeStdOutErr.read.fd, buffer, sizeof (buffer))) > 0) {
+            while ((n = readPipe(pipeStdOutErr.read.fd)) > 0) {
                 // read everything (the executable would have to wait otherwise)
                 messageStdOutErr.write(buffer, n);
             }
         }
 
-        while ((n = read(pipeMsg.read.fd, buffer, sizeof (buffer))) > 0) {
+        while ((n = readPipe(pipeMsg.read.fd)) > 0) {
             messageErr.write(buffer, n);
             size += n;
             if (size > 1e4) break;
         }
 
-        if (waitpid(pid, &status, 0) < 0) {
+        pid_t ret;
+        do {
+            ret = waitpid(pid, &status, 0);
+        } while (ret < 0 && errno == EINTR);
+
+        if (ret < 0) {
             throw CGException("Waitpid failed for pid ", pid, " [", readCErrorMsg(), "]");
         }
     } while (!WIFEXITED(status) && !WIFSIGNALED(status));
-- 
2.43.0


From 8baedbbc2be22b404771e7408f9f728595c454b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 80/93] fix: DAE systems with second-order derivatives are not
 refused as not well determined

---
 include/cppad/cg/dae_index_reduction/bipartite_graph.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 5ccd5ae..40aff81 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -236,8 +236,7 @@ public:
         for (size_t j = 0; j < vnodes_.size(); j++) {
             const Vnode<Base>* jj = vnodes_[j];
             if (!jj->isParameter() && // exclude constants
-                (jj->antiDerivative() != nullptr || // derivatives
-                 jj->derivative() == nullptr) // algebraic variables
+                jj->derivative() == nullptr // algebraic variables and highest order derivatives
                     ) {
                 nvar++;
             }
-- 
2.43.0


From 63ffd113833e23c7428a5c99242d92cf2151c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 81/93] fix: the structural index of an ODE is zero

---
 .../cg/dae_index_reduction/bipartite_graph.hpp   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 40aff81..6020a5b 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -317,7 +317,8 @@ public:
             bool isDAE = false;
             for (size_t j = 0; j < varInfo_.size(); j++) {
                 const DaeVarInfo& jj = varInfo_[j];
-                if (jj.getDerivative() < 0 && !jj.isIntegratedVariable() && jj.isFunctionOfIntegrated()) {
+                if (jj.getDerivative() < 0 && !jj.isIntegratedVariable() && jj.isFunctionOfIntegrated() &&
+                    (jj.getAntiDerivative() < 0 || !isUsedByOriginalEquations(j))) {
                     isDAE = true; // found algebraic variable
                     break;
                 }
@@ -1020,6 +1021,19 @@ public:
     }
 
 private:
+    /**
+     * Whether or not a variable is present in the equations of the original
+     * model.
+     */
+    inline bool isUsedByOriginalEquations(size_t tapeIndex) const {
+        const size_t n = varInfo_.size();
+        for (size_t p = tapeIndex; p < sparsity_.size(); p += n) {
+            if (sparsity_[p])
+                return true;
+        }
+        return false;
+    }
+
     inline void determineVariableOrder(DaeVarInfo& var) {
         if (var.getAntiDerivative() >= 0) {
             DaeVarInfo& antiD = varInfo_[var.getAntiDerivative()];
-- 
2.43.0


From 98268458ff6c5f0f37cd63c4ec965d51b2e6eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 82/93] fix: structurally singular DAE systems are refused, and
 only these

---
 .../dae_index_reduction/bipartite_graph.hpp   | 36 +++++++++++++++++++
 .../cg/dae_index_reduction/pantelides.hpp     | 19 +++-------
 .../cg/dae_index_reduction/soares_secchi.hpp  |  4 +++
 3 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 6020a5b..5954c4d 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -415,6 +415,24 @@ public:
         return iDiff;
     }
 
+    /**
+     * Determines whether or not it is possible to assign a different variable
+     * to each equation, regardless of the order of its time derivatives.
+     * Without such an assignment the system is structurally singular and the
+     * repeated differentiation of equations would never end.
+     */
+    inline bool isStructurallySingular() const {
+        std::map<const Vnode<Base>*, const Enode<Base>*> assigned;
+
+        for (const Enode<Base>* i : enodes_) {
+            std::set<const Vnode<Base>*> visited;
+            if (!assignOriginalVariable(*i, assigned, visited))
+                return true;
+        }
+
+        return false;
+    }
+
     /**
      * Completely removes an equation and any variable that is only referenced
      * by this equation from the graph.
@@ -1021,6 +1039,24 @@ public:
     }
 
 private:
+    static inline bool assignOriginalVariable(const Enode<Base>& i,
+                                              std::map<const Vnode<Base>*, const Enode<Base>*>& assigned,
+                                              std::set<const Vnode<Base>*>& visited) {
+        for (Vnode<Base>* j : i.originalVariables()) {
+            const Vnode<Base>* jj = j->originalVariable();
+            if (!visited.insert(jj).second)
+                continue;
+
+            auto it = assigned.find(jj);
+            if (it == assigned.end() || assignOriginalVariable(*it->second, assigned, visited)) {
+                assigned[jj] = &i;
+                return true;
+            }
+        }
+
+        return false;
+    }
+
     /**
      * Whether or not a variable is present in the equations of the original
      * model.
diff --git a/include/cppad/cg/dae_index_reduction/pantelides.hpp b/include/cppad/cg/dae_index_reduction/pantelides.hpp
index ad65799..0bbdb0c 100644
--- a/include/cppad/cg/dae_index_reduction/pantelides.hpp
+++ b/include/cppad/cg/dae_index_reduction/pantelides.hpp
@@ -88,6 +88,10 @@ public:
 
         reduced_ = true;
 
+        // structural check to avoid infinite recursion
+        if (graph_.isStructurallySingular())
+            throw CGException("Invalid equation structure. The model appears to be over-defined.");
+
         detectSubset2Dif();
 
         if (this->verbosity_ >= Verbosity::Low) {
@@ -159,21 +163,6 @@ protected:
                         }
                     }
 
-                    // structural check to avoid infinite recursion
-                    for (size_t l = esize; l < enodes.size(); l++) {
-                        ll = enodes[l];
-                        const std::vector<Vnode<Base>*>& nvars = ll->originalVariables();
-                        bool ok = false;
-                        for (Vnode<Base>* js : nvars) {
-                            if (js->equations().size() > 1) {
-                                ok = true;
-                                break;
-                            }
-                        }
-                        if (!ok)
-                            throw CGException("Invalid equation structure. The model appears to be over-defined.");
-                    }
-
                     for (Vnode<Base>* jj : vnodes) {
                         if (jj->isColored() && !jj->isDeleted()) {
                             Vnode<Base>* jDiff = jj->derivative();
diff --git a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
index e52846a..4163bad 100644
--- a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
+++ b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
@@ -128,6 +128,10 @@ public:
 
         reduced_ = true;
 
+        // the repeated differentiation of equations would never end
+        if (graph_.isStructurallySingular())
+            throw CGException("Singular system detected.");
+
         // detects which equations have to be differentiated to get an ODE
         detectSubset2Dif();
 
-- 
2.43.0


From 58427f9dda0d1c81fdacc7b3fb414c9fc5498738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 83/93] fix: variables of the original DAE model are not
 removed with the last differentiated equations

---
 .../dae_index_reduction/bipartite_graph.hpp   | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 5954c4d..1324567 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -456,25 +456,24 @@ public:
             /**
              * remove variable
              */
-            while(j->equations().empty()) {
+            while (j->equations().empty() && j->derivative() == nullptr &&
+                   j->index() >= origTimeDependentCount_) { // variables of the original model are never removed
                 CPPADCG_ASSERT_UNKNOWN(vnodes_[j->index()] == j);
 
-                if (j->derivative() == nullptr) {
-                    vnodes_.erase(vnodes_.cbegin() + j->index());
+                vnodes_.erase(vnodes_.cbegin() + j->index());
 
-                    // update variable indices
-                    for (size_t jj = j->index(); jj < vnodes_.size(); ++jj) {
-                        vnodes_[jj]->setTapeIndex(vnodes_[jj]->tapeIndex() - 1);
-                        vnodes_[jj]->setIndex(vnodes_[jj]->index() - 1);
-                    }
+                // update variable indices
+                for (size_t jj = j->index(); jj < vnodes_.size(); ++jj) {
+                    vnodes_[jj]->setTapeIndex(vnodes_[jj]->tapeIndex() - 1);
+                    vnodes_[jj]->setIndex(vnodes_[jj]->index() - 1);
+                }
 
-                    auto* jOrig = j->antiDerivative();
-                    CPPADCG_ASSERT_UNKNOWN(jOrig != nullptr);
-                    jOrig->setDerivative(nullptr);
+                auto* jOrig = j->antiDerivative();
+                CPPADCG_ASSERT_UNKNOWN(jOrig != nullptr);
+                jOrig->setDerivative(nullptr);
 
-                    delete j; // no longer required
-                    j = jOrig;
-                }
+                delete j; // no longer required
+                j = jOrig;
             }
 
         }
-- 
2.43.0


From 89e101fdba8038066126dd59f044a19c4fedd34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:21 +0000
Subject: [PATCH 84/93] fix: structural index given by Soares-Secchi when
 equations without algebraic variables must be differentiated

---
 include/cppad/cg/dae_index_reduction/soares_secchi.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
index 4163bad..6f42a51 100644
--- a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
+++ b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
@@ -159,7 +159,10 @@ public:
      * @throws CGException
      */
     inline size_t getStructuralIndex() const {
-        return graph_.getStructuralIndex();
+        size_t index = graph_.getStructuralIndex();
+        if (index == 0 && !lastAddEq_.empty())
+            return 1; // some equations must be differentiated to obtain an ODE
+        return index;
     }
 
 protected:
-- 
2.43.0


From 75dc582a29fdbbe723ed2e3e7241a6f03e702593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:19 +0000
Subject: [PATCH 85/93] fix: assignments to removed DAE equations are cleared

---
 include/cppad/cg/dae_index_reduction/bipartite_graph.hpp | 5 +++++
 include/cppad/cg/dae_index_reduction/bipartite_nodes.hpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
index 1324567..58fbb95 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_graph.hpp
@@ -485,6 +485,11 @@ public:
             enodes_[ii]->setIndex(enodes_[ii]->index() - 1);
         }
 
+        for (Vnode<Base>* j : vnodes_) {
+            if (j->assignmentEquation() == &i)
+                j->clearAssignmentEquation();
+        }
+
         if(i.derivativeOf() != nullptr) {
             i.derivativeOf()->setDerivative(nullptr);
         }
diff --git a/include/cppad/cg/dae_index_reduction/bipartite_nodes.hpp b/include/cppad/cg/dae_index_reduction/bipartite_nodes.hpp
index f259741..2aa2d23 100644
--- a/include/cppad/cg/dae_index_reduction/bipartite_nodes.hpp
+++ b/include/cppad/cg/dae_index_reduction/bipartite_nodes.hpp
@@ -379,6 +379,10 @@ public:
         i.setAssigmentVariable(*this);
     }
 
+    inline void clearAssignmentEquation() {
+        assign_ = nullptr;
+    }
+
     virtual std::string nodeType() {
         return TYPE;
     }
-- 
2.43.0


From 6cc6661d438217cdb9049237237e5c1c8412c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:50 +0000
Subject: [PATCH 86/93] fix: Soares-Secchi searches are not blocked by nodes
 coloured in earlier searches

---
 .../cg/dae_index_reduction/soares_secchi.hpp     | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
index 6f42a51..408b2c3 100644
--- a/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
+++ b/include/cppad/cg/dae_index_reduction/soares_secchi.hpp
@@ -193,6 +193,8 @@ protected:
                     continue;
                 }
 
+                graph_.uncolorAll();
+
                 bool pathFound = augmentPathA_->augmentPath(*i);
                 if (!pathFound) {
 
@@ -200,26 +202,20 @@ protected:
                         // mark colored equations to be differentiated
                         if (ii->isColored() && ii->derivative() == nullptr) {
                             marked.insert(ii);
-
-                            // uncolor equations
-                            ii->uncolor();
                         }
                     }
 
+                    graph_.uncolorAll();
+
                     pathFound = augmentPath_->augmentPath(*i);
                     if (!pathFound) {
                         throw CGException("Singular system detected.");
                     }
-
-                    for (auto* jj: vnodes)
-                        jj->uncolor();
-
-                } else {
-                    for (auto* ii: enodes)
-                        ii->uncolor();
                 }
             }
 
+            graph_.uncolorAll();
+
             if (marked.empty())
                 break;
 
-- 
2.43.0


From 5de96def7945c581a366c21c3e9287ea2dce9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 87/93] fix: printed values used as dependents, or several
 times, are assigned to a variable of their own

---
 include/cppad/cg/code_handler_impl.hpp |  4 ++--
 include/cppad/cg/lang/c/language_c.hpp | 17 ++++++-----------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 2851701..21ec73a 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1570,8 +1570,8 @@ void CodeHandler<Base>::checkVariableCreation(Node& root) {
             } else if (aType == CGOpCode::Pri) {
                 addToEvaluationQueue(arg);
                 if (_varId[arg] == 0) {
-                    // ID value is not really used but must be non-zero
-                    _varId[arg] = (std::numeric_limits<size_t>::max)();
+                    _varId[arg] = _idCount;
+                    _idCount++;
                 }
             } else if (aType == CGOpCode::TmpDcl) {
                 addToEvaluationQueue(arg);
diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 9795145..6d97fc4 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -979,6 +979,9 @@ protected:
 
     inline unsigned pushAssignment(Node& nodeName,
                                    Node& nodeRhs) {
+        if (nodeRhs.getOperationType() == CGOpCode::Pri) {
+            pushPrintOperation(nodeRhs); // the value is printed before it is assigned
+        }
         bool createsVar = directlyAssignsVariable(nodeRhs); // do we need to do the assignment here?
         if (!createsVar) {
             pushAssignmentStart(nodeName);
@@ -1118,8 +1121,7 @@ protected:
     virtual bool requiresVariableName(const Node& var) const {
         CGOpCode op = var.getOperationType();
         if (_info->totalUseCount.get(var) > 1) {
-            return (op != CGOpCode::Pri &&
-                    op != CGOpCode::AtomicForward &&
+            return (op != CGOpCode::AtomicForward &&
                     op != CGOpCode::AtomicReverse &&
                     op != CGOpCode::LoopStart &&
                     op != CGOpCode::LoopEnd &&
@@ -1133,7 +1135,7 @@ protected:
                     op != CGOpCode::LoopIndexedTmp &&
                     op != CGOpCode::Tmp);
         } else {
-            return isCondAssign(op);
+            return isCondAssign(op) || op == CGOpCode::Pri;
         }
     }
 
@@ -1147,7 +1149,6 @@ protected:
     virtual bool directlyAssignsVariable(const Node& var) const {
         CGOpCode op = var.getOperationType();
         return isCondAssign(op) ||
-                op == CGOpCode::Pri ||
                 op == CGOpCode::ArrayCreation ||
                 op == CGOpCode::SparseArrayCreation ||
                 op == CGOpCode::AtomicForward ||
@@ -1207,12 +1208,6 @@ protected:
 
                 size_t index = it->second;
                 var.setName(_nameGen->generateDependent(index));
-            } else if (op == CGOpCode::Pri) {
-                CPPADCG_ASSERT_KNOWN(var.getArguments().size() == 1, "Invalid number of arguments for print operation")
-                Node* tmpVar = var.getArguments()[0].getOperation();
-                CPPADCG_ASSERT_KNOWN(tmpVar != nullptr, "Invalid argument for print operation")
-                return createVariableName(*tmpVar);
-
             } else if (op == CGOpCode::LoopIndexedTmp || op == CGOpCode::Tmp) {
                 CPPADCG_ASSERT_KNOWN(var.getArguments().size() >= 1, "Invalid number of arguments for loop indexed temporary operation")
                 Node* tmpVar = var.getArguments()[0].getOperation();
@@ -1359,7 +1354,7 @@ protected:
                 pushPowFunction(node);
                 break;
             case CGOpCode::Pri:
-                pushPrintOperation(node);
+                push(node.getArguments()[0]);
                 break;
             case CGOpCode::Sign:
                 pushSignFunction(node);
-- 
2.43.0


From 2ab208e93b9d545c4f8946891e8d014f8d6bfa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 88/93] fix: Latex, MathML and DOT show the argument of print
 operations (DOT once per operation)

---
 include/cppad/cg/lang/dot/language_dot.hpp       | 11 ++---------
 include/cppad/cg/lang/latex/language_latex.hpp   |  2 +-
 include/cppad/cg/lang/mathml/language_mathml.hpp |  2 +-
 3 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/cppad/cg/lang/dot/language_dot.hpp b/include/cppad/cg/lang/dot/language_dot.hpp
index a07d07a..14474a7 100644
--- a/include/cppad/cg/lang/dot/language_dot.hpp
+++ b/include/cppad/cg/lang/dot/language_dot.hpp
@@ -814,8 +814,7 @@ protected:
             case CGOpCode::Pow:
                 return printPowFunction(node);
             case CGOpCode::Pri:
-                // do nothing
-                return makeNodeName(node);
+                return printUnaryFunction(node);
             case CGOpCode::Sub:
                 return printOperationMinus(node);
 
@@ -907,13 +906,7 @@ protected:
     virtual std::string printOperationAlias(OperationNode<Base>& op) {
         CPPADCG_ASSERT_KNOWN(op.getArguments().size() == 1, "Invalid number of arguments for alias")
 
-        std::string a0 = print(op.getArguments()[0]);
-
-        std::string name = printNodeDeclaration(op);
-
-        printEdges(name, op, std::vector<std::string> {a0});
-
-        return name;
+        return print(op.getArguments()[0]);
     }
 
     virtual std::string printOperationAdd(OperationNode<Base>& op) {
diff --git a/include/cppad/cg/lang/latex/language_latex.hpp b/include/cppad/cg/lang/latex/language_latex.hpp
index e419ffb..2d585d8 100644
--- a/include/cppad/cg/lang/latex/language_latex.hpp
+++ b/include/cppad/cg/lang/latex/language_latex.hpp
@@ -1306,7 +1306,7 @@ protected:
                 printPowFunction(node);
                 break;
             case CGOpCode::Pri:
-                // do nothing
+                print(node.getArguments()[0]);
                 break;
             case CGOpCode::Sub:
                 printOperationMinus(node);
diff --git a/include/cppad/cg/lang/mathml/language_mathml.hpp b/include/cppad/cg/lang/mathml/language_mathml.hpp
index 0a4602d..5056041 100644
--- a/include/cppad/cg/lang/mathml/language_mathml.hpp
+++ b/include/cppad/cg/lang/mathml/language_mathml.hpp
@@ -1278,7 +1278,7 @@ protected:
                 printPowFunction(node);
                 break;
             case CGOpCode::Pri:
-                // do nothing
+                print(node.getArguments()[0]);
                 break;
             case CGOpCode::Sub:
                 printOperationMinus(node);
-- 
2.43.0


From d65003fb5dc6a6dfc6f0c95eca57337f2cc4982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 89/93] fix: contents of temporary arrays are not assumed
 across the control flow of generated code

---
 include/cppad/cg/lang/c/language_c.hpp        | 8 ++++++++
 include/cppad/cg/lang/c/language_c_arrays.hpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/cppad/cg/lang/c/language_c.hpp b/include/cppad/cg/lang/c/language_c.hpp
index 6d97fc4..c313f50 100644
--- a/include/cppad/cg/lang/c/language_c.hpp
+++ b/include/cppad/cg/lang/c/language_c.hpp
@@ -1380,6 +1380,7 @@ protected:
 
             case CGOpCode::LoopStart:
                 pushLoopStart(node);
+                markAllArraysChanged();
                 break;
             case CGOpCode::LoopIndexedIndep:
                 pushLoopIndexedIndep(node);
@@ -1398,21 +1399,26 @@ protected:
                 break;
             case CGOpCode::LoopEnd:
                 pushLoopEnd(node);
+                markAllArraysChanged();
                 break;
             case CGOpCode::IndexCondExpr:
                 pushIndexCondExprOp(node);
                 break;
             case CGOpCode::StartIf:
                 pushStartIf(node);
+                markAllArraysChanged();
                 break;
             case CGOpCode::ElseIf:
                 pushElseIf(node);
+                markAllArraysChanged();
                 break;
             case CGOpCode::Else:
                 pushElse(node);
+                markAllArraysChanged();
                 break;
             case CGOpCode::EndIf:
                 pushEndIf(node);
+                markAllArraysChanged();
                 break;
             case CGOpCode::CondResult:
                 pushCondResult(node);
@@ -1780,6 +1786,8 @@ protected:
 
     inline void markArrayChanged(Node& ty);
 
+    inline void markAllArraysChanged();
+
     inline size_t printArrayCreationUsingLoop(size_t startPos,
                                               Node& array,
                                               size_t startj,
diff --git a/include/cppad/cg/lang/c/language_c_arrays.hpp b/include/cppad/cg/lang/c/language_c_arrays.hpp
index b1bbf9e..1cbe25b 100644
--- a/include/cppad/cg/lang/c/language_c_arrays.hpp
+++ b/include/cppad/cg/lang/c/language_c_arrays.hpp
@@ -451,6 +451,14 @@ inline void LanguageC<Base>::markArrayChanged(OperationNode<Base>& ty) {
     }
 }
 
+template<class Base>
+inline void LanguageC<Base>::markAllArraysChanged() {
+    // the control flow can reach this point from several places (the contents of the arrays is not known)
+    std::fill(_tmpArrayValues.begin(), _tmpArrayValues.end(), nullptr);
+    std::fill(_tmpSparseArrayValues.begin(), _tmpSparseArrayValues.end(), nullptr);
+    _atomicFuncArrays.clear();
+}
+
 } // END cg namespace
 } // END CppAD namespace
 
-- 
2.43.0


From 1f21b445b9365f1bc228a8d7a73e93f46d76f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 90/93] fix: operations without a left-hand side inside loops
 with user functions

---
 include/cppad/cg/lang/c/language_c_loops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cppad/cg/lang/c/language_c_loops.hpp b/include/cppad/cg/lang/c/language_c_loops.hpp
index fea15b5..8389bf8 100644
--- a/include/cppad/cg/lang/c/language_c_loops.hpp
+++ b/include/cppad/cg/lang/c/language_c_loops.hpp
@@ -105,7 +105,7 @@ inline size_t LanguageC<Base>::printLoopIndexedDepsUsingLoop(const std::vector<O
             break;
 
         const OperationNode<Base>* nodeLeft = variableOrder[i]->getArguments()[0].getOperation();
-        if (nodeLeft->getOperationType() != CGOpCode::ArrayElement)
+        if (nodeLeft == nullptr || nodeLeft->getOperationType() != CGOpCode::ArrayElement)
             break;
 
         const OperationNode<Base>* arrayi = nodeLeft->getArguments()[0].getOperation();
-- 
2.43.0


From bb00d28da529369b4e12df2af6f9bba48a610f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 91/93] fix: Hessian of loops with user functions when there
 are no functions without atomics

---
 .../patterns/model_c_source_gen_loops_hess.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
index eb134ee..bff94d4 100644
--- a/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
+++ b/include/cppad/cg/model/patterns/model_c_source_gen_loops_hess.hpp
@@ -1115,6 +1115,14 @@ inline void generateLoopForJacHes(ADFun<CG<Base> >& fun,
     jac.resize(m);
     vhess.resize(vw.size());
 
+    std::vector<CG<Base> > xl;
+    if (x.size() == 0) {
+        xl.resize(1); // does not depend on any variable but CppAD requires at least one
+        xl[0] = Base(0);
+    } else {
+        xl = x;
+    }
+
     if (!individualColoring) {
         /**
          * No atomics
@@ -1138,14 +1146,6 @@ inline void generateLoopForJacHes(ADFun<CG<Base> >& fun,
             vhessFlat[l].resize(hesRow.size());
         }
 
-        std::vector<CG<Base> > xl;
-        if (x.size() == 0) {
-            xl.resize(1); // does not depend on any variable but CppAD requires at least one
-            xl[0] = Base(0);
-        } else {
-            xl = x;
-        }
-
         SparseForjacHessianWork work;
         sparseForJacHessian(fun, xl, vw,
                             y,
@@ -1186,7 +1186,7 @@ inline void generateLoopForJacHes(ADFun<CG<Base> >& fun,
 
         std::vector<CGB> tx1v(n);
 
-        y = fun.Forward(0, x);
+        y = fun.Forward(0, xl);
 
         for (size_t j1 = 0; j1 < n; j1++) {
             if (jacEvalSparsityT[j1].empty() && hesEvalSparsity[j1].empty()) {
-- 
2.43.0


From 5d3666b3d164e932cb708cd4e31eb65160e5161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 92/93] fix: arrays and calls to user functions used in several
 branches of a loop

---
 include/cppad/cg/code_handler_impl.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index 21ec73a..b8e7492 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -994,10 +994,13 @@ inline bool CodeHandler<Base>::handleTemporaryVarInDiffScopes(Node& code,
         return false;
 
     /**
-     * @TODO allow Array elements to use a CGTmp instead of a CGArrayCreationOp
+     * arrays and calls to atomic functions do not have a value which could
+     * be assigned to a temporary variable
      */
-    CPPADCG_ASSERT_KNOWN(code.getOperationType() != CGOpCode::ArrayCreation, "Not supported yet")
-    CPPADCG_ASSERT_KNOWN(code.getOperationType() != CGOpCode::SparseArrayCreation, "Not supported yet")
+    CGOpCode op = code.getOperationType();
+    if (op == CGOpCode::ArrayCreation || op == CGOpCode::SparseArrayCreation ||
+        op == CGOpCode::AtomicForward || op == CGOpCode::AtomicReverse)
+        return false;
 
     if (isIfBranchScope(_currentScopeColor) && isIfBranchScope(oldScope)) {
         // used in 2 different if/else branches
@@ -1236,6 +1239,7 @@ inline void CodeHandler<Base>::updateVarScopeUsage(Node* node,
     if (newScope != usageScope && isIfBranchScope(oldScope) && isIfBranchScope(usageScope) &&
         op != CGOpCode::Inv && op != CGOpCode::Index && op != CGOpCode::IndexDeclaration &&
         op != CGOpCode::LoopIndexedIndep && op != CGOpCode::ArrayCreation && op != CGOpCode::SparseArrayCreation &&
+        op != CGOpCode::AtomicForward && op != CGOpCode::AtomicReverse &&
         isRequiredBySomeIterationsOnly(*node)) {
         // used in 2 different if/else branches
         const UsageRegion& region = _usageRegions.at(node);
-- 
2.43.0


From 7d89c990f868c2445eabe020cbe4bcb6e3442d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:28 +0000
Subject: [PATCH 93/93] fix: variables required inside a loop through
 expressions from outside are kept until its end

---
 include/cppad/cg/code_handler.hpp      |  7 ++++++
 include/cppad/cg/code_handler_impl.hpp | 30 +++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/include/cppad/cg/code_handler.hpp b/include/cppad/cg/code_handler.hpp
index e512a4a..6de6d39 100644
--- a/include/cppad/cg/code_handler.hpp
+++ b/include/cppad/cg/code_handler.hpp
@@ -753,6 +753,13 @@ protected:
      */
     inline void determineLastTempVarUsage(Node& node);
 
+    /**
+     * Finds the temporary variables and arrays evaluated outside of the
+     * current loop which are required by an operation used inside that loop
+     * (directly or through expressions without a variable of their own)
+     */
+    inline void findOuterVariables(Node& root);
+
     /**
      * Determines relations between variables with an ID
      */
diff --git a/include/cppad/cg/code_handler_impl.hpp b/include/cppad/cg/code_handler_impl.hpp
index b8e7492..466cff3 100644
--- a/include/cppad/cg/code_handler_impl.hpp
+++ b/include/cppad/cg/code_handler_impl.hpp
@@ -1964,11 +1964,8 @@ inline void CodeHandler<Base>::determineLastTempVarUsage(Node& root) {
                         setLastUsageEvaluationOrder(*aa, order);
                     }
 
-                    if (_loops.depth >= 0 &&
-                        getEvaluationOrder(*aa) < _loops.startEvalOrder[_loops.depth] &&
-                        isTemporary(*aa)) {
-                        // outer variable used inside the loop
-                        _loops.outerVars[_loops.depth].insert(aa);
+                    if (_loops.depth >= 0) {
+                        findOuterVariables(*aa); // outer variable used inside the loop
                     }
                 }
             }
@@ -2006,6 +2003,29 @@ inline void CodeHandler<Base>::determineLastTempVarUsage(Node& root) {
 
 }
 
+template<class Base>
+inline void CodeHandler<Base>::findOuterVariables(Node& root) {
+    size_t startOrder = _loops.startEvalOrder[_loops.depth];
+
+    std::vector<Node*> stack(1, &root);
+    while (!stack.empty()) {
+        Node& node = *stack.back();
+        stack.pop_back();
+
+        if (isTemporary(node) || isTemporaryArray(node) || isTemporarySparseArray(node)) {
+            if (getEvaluationOrder(node) < startOrder)
+                _loops.outerVars[_loops.depth].insert(&node);
+
+        } else if (_varId[node] == 0 && getEvaluationOrder(node) <= startOrder) {
+            // an expression found outside the loop which is only evaluated inside the loop
+            for (const Arg& a : node.getArguments()) {
+                if (a.getOperation() != nullptr)
+                    stack.push_back(a.getOperation());
+            }
+        }
+    }
+}
+
 template<class Base>
 inline void CodeHandler<Base>::dependentAdded2EvaluationQueue(Node& root) {
 
-- 
2.43.0

