From 96d2d2b0146b6c2e752f869b0eb61b5e056c0ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 01/22] fix: do not lose wake-ups of worker threads

Thread::assign and Thread::shutdown changed the state under data_mutex, but
the worker waited with main_mutex: a notification between its inspection of
the state and its wait was lost, and the survey or its shutdown hung.
---
 src/threaded/thread.cc | 37 ++++++++++++++-----------------------
 src/threaded/thread.hh |  1 -
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/threaded/thread.cc b/src/threaded/thread.cc
index 2431679..345ca4a 100644
--- a/src/threaded/thread.cc
+++ b/src/threaded/thread.cc
@@ -54,34 +54,25 @@ main_thread(
     const shared_ptr<StoreFactoryInterface> store_factory
     )
 {
-  unique_lock<mutex> main_lock(thread->main_mutex);
-
   while ( true ) {
-    while ( true ) {
-      thread->data_mutex.lock();
-      bool shutting_down = thread->shutting_down;
-      bool blocks_empty = thread->blocks.empty();
-      thread->data_mutex.unlock();
-
-      if ( shutting_down )
-        return;
-
-      if ( blocks_empty )
-        thread->main_cond_var.wait(main_lock);
-      else
-        break;
-    }
-
-
     vuu_block block;
     shared_ptr<FqElementTable> fq_table;
     vector<shared_ptr<ReductionTable>> reduction_tables;
 
-    thread->data_mutex.lock();
-    tie(block, fq_table, reduction_tables) =
-      thread->blocks.front();
-    thread->blocks.pop_front();
-    thread->data_mutex.unlock();
+    {
+      // wait with the mutex that guards the state, so that no notification
+      // is lost between inspecting the state and waiting
+      unique_lock<mutex> data_lock(thread->data_mutex);
+      while ( !thread->shutting_down && thread->blocks.empty() )
+        thread->main_cond_var.wait(data_lock);
+
+      if ( thread->shutting_down )
+        return;
+
+      tie(block, fq_table, reduction_tables) =
+        thread->blocks.front();
+      thread->blocks.pop_front();
+    }
 
     auto store = store_factory->create();
     for ( BlockIterator iter(block); !iter.is_end(); iter.step() ) {
diff --git a/src/threaded/thread.hh b/src/threaded/thread.hh
index 8f43297..79c63c7 100644
--- a/src/threaded/thread.hh
+++ b/src/threaded/thread.hh
@@ -81,7 +81,6 @@ class Thread :
     thread main_std_thread;
     bool shutting_down;
 
-    mutex main_mutex;
     mutex data_mutex;
     condition_variable main_cond_var;
 
-- 
2.43.0


From 728adffd1406307c93ca63a3339043a8c33b9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 02/22] fix: WithMarkedPoint is optional in configurations

The configuration of the README leaves it out and was refused with an
exception.
---
 src/config/config_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index ff4f0e9..8273ced 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -92,7 +92,10 @@ namespace YAML
     config.prime_exponent = node["PrimeExponent"].as<int>();
   
     config.genus = node["Genus"].as<int>();
-    config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    if ( node["WithMarkedPoint"] )
+      config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    else
+      config.with_marked_point = false;
 
     if ( node["CountExponent"] )
       config.count_exponent = node["CountExponent"].as<int>();
-- 
2.43.0


From ca2e4953f815436003b563ddeb49a72ade96d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 03/22] fix: do not read an empty block at the end of a record

The end of file is detected only when reading past the last line, so that
every record contained an additional empty block.
---
 src/store/file_store.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1bb4d4c..1a714c4 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -123,8 +123,7 @@ extract(
 {
   vuu_block block;
 
-  stream.peek();
-  while ( !stream.eof() ) {
+  while ( stream.peek() != istream::traits_type::eof() ) {
     block.clear();
     FileStore::extract(stream, block);
     record.insert(block);
-- 
2.43.0


From 8cd3de83b2f3edf426d4347ca2e901ec429c17f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 04/22] fix: copy counts deeply

Count::ValueType owns an fmpz_t, but was copied and assigned member by member:
counts that do not fit a word were freed twice and used after being freed.
---
 src/store/store_data.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/store/store_data.hh b/src/store/store_data.hh
index c65ab54..f772bf1 100644
--- a/src/store/store_data.hh
+++ b/src/store/store_data.hh
@@ -83,6 +83,17 @@ class Count
 
       ValueType(const string & str);
 
+      ValueType(const ValueType & value)
+      {
+        fmpz_init_set(this->counter, value.counter);
+      };
+
+      ValueType & operator=(const ValueType & value)
+      {
+        fmpz_set(this->counter, value.counter);
+        return *this;
+      };
+
       ~ValueType()
       {
         fmpz_clear(this->counter);
-- 
2.43.0


From d6176333f1216e2c6a9483f5f697129dfbf5447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 05/22] fix: do not accept zero as generator of a finite field

For primes without Conway polynomial the randomly chosen candidates include
zero, whose powers were taken for a discrete logarithm table, so that all
coefficients had exponent zero and counts were wrong.
---
 src/fq_element_table.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fq_element_table.cc b/src/fq_element_table.cc
index 454b4db..9753bbb 100644
--- a/src/fq_element_table.cc
+++ b/src/fq_element_table.cc
@@ -60,6 +60,8 @@ FqElementTable(
   this->fq_elements.reserve(this->prime_power);
 
   for ( bool is_gen = false; !is_gen; fq_nmod_randtest(gen, state, this->fq_ctx)) {
+    if ( fq_nmod_is_zero(gen, this->fq_ctx) )
+      continue;
     is_gen = true;
 
     this->fq_elements.clear();
-- 
2.43.0


From e331e00937a0f490afa5e3da2c20fc08ea0b8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 06/22] fix: a record exists only when its results and itself
 are complete

Failures to write were not noticed, so that a record could claim blocks whose
results were lost. A record was visible before it was written: when the
process was killed in between, the results counted a second time after the
survey was resumed.
---
 src/store/file_store.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1a714c4..141dfa0 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -22,6 +22,7 @@
 
 #include <fstream>
 #include <random>
+#include <stdexcept>
 
 #include "store/file_store.hh"
 
@@ -34,6 +35,21 @@ using namespace std;
 const string FileStore::record_extension = ".hycu_record";
 const string FileStore::store_extension = ".hycu_store";
 
+
+static
+void
+write_file(
+    const path & filepath,
+    const string & content
+    )
+{
+  fstream stream(filepath.native(), ios_base::out);
+  stream << content;
+  stream.close();
+  if ( !stream )
+    throw runtime_error("FileStore: could not write " + filepath.native());
+}
+
 FileStore::
 FileStore(
     const ConfigNode & config
@@ -69,8 +85,11 @@ save(
   tie(path_record, path_store) = this->new_filenames();
 
   // save record second as a witness to successful writing
-  fstream(path_store.native(),  ios_base::out) << get<1>(record_store);
-  fstream(path_record.native(), ios_base::out) << get<0>(record_store);
+  // and under its final name only when it is complete
+  path path_incomplete(path_record.native() + ".incomplete");
+  write_file(path_store, get<1>(record_store));
+  write_file(path_incomplete, get<0>(record_store));
+  filesys::rename(path_incomplete, path_record);
 }
 
 tuple<path, path>
-- 
2.43.0


From 5b7c5634561e7cd9dc30f87c6c4409e90a42827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 07/22] fix: hycu-merger reports inputs it cannot read and
 outputs it cannot write

It exited with success although the output was missing or truncated, or an
input had not been read.
---
 src/executables/merger.cc | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index f941620..741980c 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -152,13 +152,34 @@ merge(
       return 1;
     }
 
-    FileStore::extract( fstream(record_file.native(), ios_base::in), record );
-    store.extract( fstream(store_file.native(), ios_base::in) );
+    fstream record_stream(record_file.native(), ios_base::in);
+    FileStore::extract( record_stream, record );
+    fstream store_stream(store_file.native(), ios_base::in);
+    store.extract( store_stream );
+    if (    !record_stream.is_open() || record_stream.bad()
+         || !store_stream.is_open() || store_stream.bad() ) {
+      cerr << "could not read record file " << record_file.filename()
+           << " or its store file" << endl;
+      return 1;
+    }
   }
 
   // save record second as a witness to successful writing
-  store.insert( fstream(store_output_file.native(), ios_base::out) );
-  FileStore::insert( fstream(record_output_file.native(), ios_base::out), record );
+  fstream store_stream(store_output_file.native(), ios_base::out);
+  store.insert( store_stream );
+  store_stream.close();
+  if ( !store_stream ) {
+    cerr << "could not write " << store_output_file << endl;
+    return 1;
+  }
+
+  fstream record_stream(record_output_file.native(), ios_base::out);
+  FileStore::insert( record_stream, record );
+  record_stream.close();
+  if ( !record_stream ) {
+    cerr << "could not write " << record_output_file << endl;
+    return 1;
+  }
 
   return 0;
 }
-- 
2.43.0


From 0d1503a9068ed9fb605ab7751cf85c89fa74eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 08/22] fix: an unreadable record does not pass for an empty
 one

A survey resumed on it computed and recorded its blocks a second time.
---
 src/store/file_store.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 141dfa0..6e9eab7 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -68,7 +68,11 @@ FileStore(
          || filepath.extension() != FileStore::record_extension )
       continue;
     
-    this->extract(fstream(filepath.native(), ios_base::in) , this->initial_record);
+    fstream stream(filepath.native(), ios_base::in);
+    this->extract(stream, this->initial_record);
+    // an unreadable record must not pass for an empty one
+    if ( !stream.is_open() || stream.bad() )
+      throw runtime_error("FileStore: could not read " + filepath.native());
   }
 }
 
-- 
2.43.0


From df767209619c97657f0e5a103426a0dc50038718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 09/22] fix: reduce coefficients of single curves modulo the
 prime

Coefficients not less than the prime were taken for 1. For primes larger than
2^16 the powers of the generator overflowed, and coefficients were mixed up.
---
 src/single_curve_fp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 54fd531..37204bd 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -49,12 +49,12 @@ single_curve_fp(
   fp_conversion_map[0] = prime-1;
   for (unsigned int ex=0; ex<prime-1; ++ex) {
     fp_conversion_map[a] = ex;
-    a = (a*gen) % prime;
+    a = ((unsigned long int)a*gen) % prime;
   }
 
   vector<unsigned int> poly_coeff_exponents;
   for ( auto c : poly_coeffs )
-    poly_coeff_exponents.push_back(fp_conversion_map[c]);
+    poly_coeff_exponents.push_back(fp_conversion_map[c % prime]);
 
   shared_ptr<OpenCLInterface> opencl;
   if (  implementation == SingleCurveCountImplementationCPU
-- 
2.43.0


From a711292c78034cabf5519556f49dcb2206ee2dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 10/22] fix: hycu-single refuses field size 2 and constant
 polynomials

Field size 2 gave a wrong answer, the zero polynomial undefined behaviour, and
other constant polynomials a genus of 2^32-1. Negative coefficients were read
as integers modulo 2^32 and not as themselves.
---
 src/executables/single.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/executables/single.cc b/src/executables/single.cc
index 0be6e42..9b0b0f5 100644
--- a/src/executables/single.cc
+++ b/src/executables/single.cc
@@ -45,7 +45,7 @@ main(
   popt::positional_options_description positional_options;
 
   hidden_options.add_options()
-    ( "coefficients", value<vector<unsigned int>>()->composing(),
+    ( "coefficients", value<vector<long int>>()->composing(),
       "coefficients of the polynomial" )
     ( "field_size", value<unsigned int>(),
       "size of the ground field" );
@@ -89,7 +89,7 @@ main(
       invalid_options = true;
       cerr << "no coefficient was specified";
     }
-    else if ( options_map["coefficients"].as<vector<unsigned int>>().size() < 2 ) {
+    else if ( options_map["coefficients"].as<vector<long int>>().size() < 2 ) {
       invalid_options = true;
       cerr << "less than two coefficient were specified";
     }
@@ -99,11 +99,25 @@ main(
     }
   }
 
-  if ( !n_is_prime(options_map["field_size"].as<unsigned int>()) ) {
-    cerr << "field size is not prime";
+  if (    !n_is_prime(options_map["field_size"].as<unsigned int>())
+       || options_map["field_size"].as<unsigned int>() == 2 ) {
+    cerr << "field size is not an odd prime" << endl;
     return 1;
   }
 
+  vector<unsigned int> coefficients;
+  {
+    long int prime = options_map["field_size"].as<unsigned int>();
+    for ( long int c : options_map["coefficients"].as<vector<long int>>() )
+      coefficients.push_back((c % prime + prime) % prime);
+    while ( !coefficients.empty() && coefficients.back() == 0 )
+      coefficients.pop_back();
+    if ( coefficients.size() < 2 ) {
+      cerr << "polynomial is constant" << endl;
+      return 1;
+    }
+  }
+
   {
     int nmb_implementations = options_map.count("naivenmod") +  options_map.count("naivezech");
 #ifdef WITH_OPENCL
@@ -128,7 +142,7 @@ main(
     count_implementation = SingleCurveCountImplementationCPU;
 
   auto curve = single_curve_fp( options_map["field_size"].as<unsigned int>(),
-                                options_map["coefficients"].as<vector<unsigned int>>(),
+                                coefficients,
                                 count_implementation
                               );
     
-- 
2.43.0


From f3c1ad34bbf72d095dab4b29b1d53450da910a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 11/22] fix: end all MPI ranks when the configuration or
 command line is unusable

Rank 0 returned before the initialization that all others wait for, so that
the run never ended.
---
 src/executables/mpi.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/executables/mpi.cc b/src/executables/mpi.cc
index 437f77b..d44eaae 100644
--- a/src/executables/mpi.cc
+++ b/src/executables/mpi.cc
@@ -56,6 +56,13 @@ main(
   if ( mpi_world->rank() != 0 )
     return main_mpi_worker(mpi_world);
 
+  // the workers wait for the initialization of the worker pool, so that we
+  // have to end them if it does not take place
+  auto exit_before_initialization = [&mpi_environment]( int status )
+    {
+      mpi_environment.abort(status);
+      return status;
+    };
 
   popt::options_description visible_options("Available options"), all_options;
   popt::positional_options_description positional_options;
@@ -85,31 +92,31 @@ main(
 
   if ( options_map.count("help") ) {
     cerr << visible_options;
-    return 0;
+    return exit_before_initialization(0);
   }
 
   if ( !options_map.count("config-file") ) {
     cerr << "configuration file required" << endl;
-    return 1;
+    return exit_before_initialization(1);
   }
 
   if ( !options_map.count("output-path") ) {
     cerr << "output path required" << endl;
-    return 1;
+    return exit_before_initialization(1);
   }
 
 
   path output_path(options_map["output-path"].as<string>());
   if ( !( is_directory(output_path) || create_directories(output_path) ) ) {
     cerr << "could not create output path" << endl;
-    return 1;
+    return exit_before_initialization(1);
   }
 
 
   path config_file(options_map["config-file"].as<string>());
   if ( !is_regular_file(config_file) ) {
     cerr << "could not find configuration file or it is not a regular file" << endl;
-    return 1;
+    return exit_before_initialization(1);
   }
   auto config_yaml = YAML::LoadFile(config_file.native());
 
@@ -123,7 +130,7 @@ main(
       store_type = StoreType::EC;
     else {
       cerr << "Invalid store type given" << endl;
-      return 1;
+      return exit_before_initialization(1);
     }
   }
 
-- 
2.43.0


From 8d1b5b76f6fe04c8b428a5e9450928c56fca88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 12/22] fix: refuse to run a pool without threads

With no threads (-n 0) the survey waited forever for one to become ready.
---
 src/threaded/thread_pool.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/threaded/thread_pool.cc b/src/threaded/thread_pool.cc
index a116eb1..5b7708b 100644
--- a/src/threaded/thread_pool.cc
+++ b/src/threaded/thread_pool.cc
@@ -21,6 +21,7 @@
 ===============================================================================*/
 
 
+#include <stdexcept>
 #include <vector>
 #include <sstream>
 #include <tuple>
@@ -62,6 +63,10 @@ spark_threads(
   for ( unsigned int ix=this->threads.size()/8; ix<(unsigned int)nmb_working_threads; ++ix )
     this->threads.push_back(make_shared<Thread>(shared_from_this(), this->store_factory));
 
+  // without threads no block would ever be finished
+  if ( this->threads.empty() )
+    throw invalid_argument("ThreadPool::spark_threads: no threads");
+
 
   for ( const auto thread : this->threads ) {
     thread->spark();
-- 
2.43.0


From 522be201e98af6990f5ed5fc50572545f63ec4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 13/22] fix: make the OpenCL implementation compile again

Curve has changed to unsigned integers, but the OpenCL host code has not.
---
 src/opencl/kernel_evaluation.cc | 2 +-
 src/opencl/kernel_evaluation.hh | 2 +-
 src/opencl/kernel_reduction.cc  | 2 +-
 src/opencl/kernel_reduction.hh  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opencl/kernel_evaluation.cc b/src/opencl/kernel_evaluation.cc
index 88050c0..1524b44 100644
--- a/src/opencl/kernel_evaluation.cc
+++ b/src/opencl/kernel_evaluation.cc
@@ -85,7 +85,7 @@ OpenCLKernelEvaluation(
 void
 OpenCLKernelEvaluation::
 enqueue(
-    vector<int> poly_coeff_exponents
+    const vector<unsigned int> & poly_coeff_exponents
     )
 {
   cl_int status;
diff --git a/src/opencl/kernel_evaluation.hh b/src/opencl/kernel_evaluation.hh
index 6b88f14..edf37eb 100644
--- a/src/opencl/kernel_evaluation.hh
+++ b/src/opencl/kernel_evaluation.hh
@@ -40,7 +40,7 @@ class OpenCLKernelEvaluation
   public:
     OpenCLKernelEvaluation(const ReductionTable & table, unsigned int degree);
 
-    void enqueue(vector<int> poly_coeff_exponents);
+    void enqueue(const vector<unsigned int> & poly_coeff_exponents);
 
   private:
     unsigned int prime_power_pred;
diff --git a/src/opencl/kernel_reduction.cc b/src/opencl/kernel_reduction.cc
index 17a8106..1e35f5d 100644
--- a/src/opencl/kernel_reduction.cc
+++ b/src/opencl/kernel_reduction.cc
@@ -130,7 +130,7 @@ _reduce(
 void
 OpenCLKernelReduction::
 reduce(
-    map<unsigned int, tuple<int,int>> & nmb_points
+    map<unsigned int, tuple<unsigned int,unsigned int>> & nmb_points
     )
 {
   get<0>(nmb_points[this->prime_exponent]) +=
diff --git a/src/opencl/kernel_reduction.hh b/src/opencl/kernel_reduction.hh
index 8507c8d..841e746 100644
--- a/src/opencl/kernel_reduction.hh
+++ b/src/opencl/kernel_reduction.hh
@@ -44,7 +44,7 @@ class OpenCLKernelReduction
   public:
     OpenCLKernelReduction(const ReductionTable & table);
 
-    void reduce(map<unsigned int, tuple<int,int>> & nmb_points);
+    void reduce(map<unsigned int, tuple<unsigned int,unsigned int>> & nmb_points);
 
   private:
     unsigned int prime_exponent;
-- 
2.43.0


From 641f8702975a4919d9632fb5f7ffd6a834bfee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 14/22] fix: do not let OpenCL read host memory after it was
 released

The coefficients and tables were written asynchronously, while the caller was
free to release them.
---
 src/opencl/buffer_evaluation.cc | 4 ++--
 src/opencl/kernel_evaluation.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opencl/buffer_evaluation.cc b/src/opencl/buffer_evaluation.cc
index 4234cfe..6cd7851 100644
--- a/src/opencl/buffer_evaluation.cc
+++ b/src/opencl/buffer_evaluation.cc
@@ -50,7 +50,7 @@ OpenCLBufferEvaluation(
 
   cl_int status;
  
-  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_exponent_reduction_table, CL_FALSE, 0,
+  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_exponent_reduction_table, CL_TRUE, 0,
       sizeof(int32_t) * table.exponent_reduction_table->size(),
       table.exponent_reduction_table->data() );
   if ( status != CL_SUCCESS ) {
@@ -58,7 +58,7 @@ OpenCLBufferEvaluation(
     throw;
   }
 
-  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_incrementation_table, CL_FALSE, 0,
+  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_incrementation_table, CL_TRUE, 0,
       sizeof(int32_t) * table.incrementation_table->size(),
       table.incrementation_table->data() );
   if ( status != CL_SUCCESS ) {
diff --git a/src/opencl/kernel_evaluation.cc b/src/opencl/kernel_evaluation.cc
index 1524b44..a84abb9 100644
--- a/src/opencl/kernel_evaluation.cc
+++ b/src/opencl/kernel_evaluation.cc
@@ -95,7 +95,7 @@ enqueue(
     throw;
   }
 
-  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_poly_coeff_exponents, CL_FALSE, 0,
+  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_poly_coeff_exponents, CL_TRUE, 0,
                                     sizeof(int) * (degree+1), poly_coeff_exponents.data());
   if ( status != CL_SUCCESS ) {
     cerr << "OpenCLKernelEvaluation::enqueue: could not write poly_coeff_exponents" << endl;
-- 
2.43.0


From 9204238c5b01e553658d0f521c27dc1bee7c15b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 15/22] fix: set up OpenCL also when the interface is moved
 into the table

The constructor inspected its argument after it had moved it away, so that
counting dereferenced a null pointer.
---
 src/reduction_table.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reduction_table.cc b/src/reduction_table.cc
index e80ebed..1131646 100644
--- a/src/reduction_table.cc
+++ b/src/reduction_table.cc
@@ -52,7 +52,7 @@ ReductionTable(
 {
   this->compute_tables();
 #ifdef WITH_OPENCL
-  if ( opencl ) {
+  if ( this->opencl ) {
     this->_buffer_evaluation = make_shared<OpenCLBufferEvaluation>(*this);
     this->_kernel_reduction = make_shared<OpenCLKernelReduction>(*this);
   }
@@ -73,7 +73,7 @@ ReductionTable(
 {
   this->compute_tables();
 #ifdef WITH_OPENCL
-  if ( opencl ) {
+  if ( this->opencl ) {
     this->_buffer_evaluation = make_shared<OpenCLBufferEvaluation>(*this);
     this->_kernel_reduction = make_shared<OpenCLKernelReduction>(*this);
   }
-- 
2.43.0


From eb73476921041bea49bd08d65c251bcccf885699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 16/22] fix: release the coefficients of naive counting

Every naively counted curve leaked its coefficients.
---
 src/curve.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/curve.cc b/src/curve.cc
index 6d64e43..b748bd3 100644
--- a/src/curve.cc
+++ b/src/curve.cc
@@ -337,7 +337,7 @@ count_naive_nmod(
   // convert coefficient exponents to fq_nmod elements
   // fixme: in this conversion as in the other ones, we
   // silently assume that gen_q = gen_{q^l}^{q^l - q}
-  vector<const fq_nmod_struct*> poly_coefficients;
+  vector<fq_nmod_struct*> poly_coefficients;
   for ( unsigned int e : this->poly_coeff_exponents ) {
     auto a = new fq_nmod_struct;
     fq_nmod_init(a, fq_ctx);
@@ -408,6 +408,10 @@ count_naive_nmod(
 
 
   // clear flint variables
+  for ( auto c : poly_coefficients ) {
+    fq_nmod_clear(c, fq_ctx);
+    delete c;
+  }
   fq_nmod_clear(gen, fq_ctx);
   fq_nmod_clear(sub_gen, fq_ctx);
   fq_nmod_clear(x, fq_ctx);
@@ -460,7 +464,7 @@ count_naive_zech(
   // convert coefficient exponents to fq_zech elements
   // fixme: in this conversion as in the other ones, we
   // silently assume that gen_q = gen_{q^l}^{q^l - q}
-  vector<const fq_zech_struct*> poly_coefficients;
+  vector<fq_zech_struct*> poly_coefficients;
   for ( unsigned int e : this->poly_coeff_exponents ) {
     auto a = new fq_zech_struct;
     fq_zech_init(a, fq_ctx);
@@ -531,6 +535,10 @@ count_naive_zech(
 
 
   // clear flint variables
+  for ( auto c : poly_coefficients ) {
+    fq_zech_clear(c, fq_ctx);
+    delete c;
+  }
   fq_zech_clear(gen, fq_ctx);
   fq_zech_clear(sub_gen, fq_ctx);
   fq_zech_clear(x, fq_ctx);
-- 
2.43.0


From a7e2e4e9217031c54392895489992283617b6f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 17/22] fix: initialize FLINT's method tables before there are
 threads

FLINT initializes its tables of methods lazily and without synchronization.
When two worker threads used a ring first at the same time, one of them found
the table half overwritten, and the survey ended with GR_MUST_SUCCEED failure.
---
 src/threaded/thread_pool.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/threaded/thread_pool.cc b/src/threaded/thread_pool.cc
index 5b7708b..3d49927 100644
--- a/src/threaded/thread_pool.cc
+++ b/src/threaded/thread_pool.cc
@@ -26,6 +26,8 @@
 #include <sstream>
 #include <tuple>
 
+#include "curve.hh"
+#include "fq_element_table.hh"
 #include "threaded/thread_pool.hh"
 #include "opencl/interface.hh"
 
@@ -33,6 +35,24 @@
 using namespace std;
 
 
+// FLINT initializes its tables of methods when a ring is used first, and
+// does not synchronize this; so use the rings before there are threads.
+static
+void
+initialize_flint()
+{
+  for ( unsigned int prime_exponent : {1, 2} ) {
+    auto table = make_shared<FqElementTable>(3, prime_exponent);
+
+    // X^3 - X, which has three factors of equal degree
+    auto minus_one = table->zero_index() / 2;
+    Curve curve(table, { table->zero_index(), minus_one, table->zero_index(), 0 });
+
+    curve.has_squarefree_rhs();
+    curve.ramification_type();
+  }
+}
+
 void
 ThreadPool::
 spark_threads(
@@ -68,6 +88,8 @@ spark_threads(
     throw invalid_argument("ThreadPool::spark_threads: no threads");
 
 
+  initialize_flint();
+
   for ( const auto thread : this->threads ) {
     thread->spark();
     this->ready_threads.push_back(thread);
-- 
2.43.0


From e2cd819684bf8497c23f9c8f955bd7459be223fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:09 +0000
Subject: [PATCH 18/22] fix: do not reuse names of incomplete records

A record left incomplete, but without its store, was overwritten when the
same name was drawn again.
---
 src/store/file_store.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 6e9eab7..7767c5d 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -50,6 +50,15 @@ write_file(
     throw runtime_error("FileStore: could not write " + filepath.native());
 }
 
+static
+path
+incomplete_path(
+    const path & filepath
+    )
+{
+  return path(filepath.native() + ".incomplete");
+}
+
 FileStore::
 FileStore(
     const ConfigNode & config
@@ -90,7 +99,7 @@ save(
 
   // save record second as a witness to successful writing
   // and under its final name only when it is complete
-  path path_incomplete(path_record.native() + ".incomplete");
+  path path_incomplete = incomplete_path(path_record);
   write_file(path_store, get<1>(record_store));
   write_file(path_incomplete, get<0>(record_store));
   filesys::rename(path_incomplete, path_record);
@@ -111,7 +120,8 @@ new_filenames()
 
     path path_record = this->full_path(filename_record_ss.str());
     path path_store = this->full_path(filename_store_ss.str());
-    if ( is_regular_file(path_record) || is_regular_file(path_store) )
+    if (    is_regular_file(path_record) || is_regular_file(path_store)
+         || is_regular_file(incomplete_path(path_record)) )
       continue;
 
     return make_tuple(path_record, path_store);
-- 
2.43.0


From a04320519a984196e7eb26b89ffdfc777e6af880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:29 +0000
Subject: [PATCH 19/22] fix: refuse negative numbers in configurations

They were read as huge positive ones: a negative package size was accepted,
and a negative genus or count exponent never ended.
---
 src/config/config_node.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index 8273ced..5ed9fe0 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -88,23 +88,23 @@ namespace YAML
          || !node["PackageSize"] )
       return false;
   
-    config.prime = node["Prime"].as<int>();
-    config.prime_exponent = node["PrimeExponent"].as<int>();
+    config.prime = node["Prime"].as<unsigned int>();
+    config.prime_exponent = node["PrimeExponent"].as<unsigned int>();
   
-    config.genus = node["Genus"].as<int>();
+    config.genus = node["Genus"].as<unsigned int>();
     if ( node["WithMarkedPoint"] )
       config.with_marked_point = node["WithMarkedPoint"].as<bool>();
     else
       config.with_marked_point = false;
 
     if ( node["CountExponent"] )
-      config.count_exponent = node["CountExponent"].as<int>();
+      config.count_exponent = node["CountExponent"].as<unsigned int>();
     else
       config.count_exponent = config.genus;
   
     config.result_path = path(node["ResultPath"].as<string>());
   
-    config.package_size = node["PackageSize"].as<int>();
+    config.package_size = node["PackageSize"].as<unsigned int>();
   
     return true;
   }
-- 
2.43.0


From df3851311a0160c46a28f4619952272b217ba8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 20/22] fix: refuse configurations whose characteristic is not
 an odd prime

Surveys over a composite characteristic never ended.
---
 src/config/config_node.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/config_node.hh b/src/config/config_node.hh
index 259b753..f4c3479 100644
--- a/src/config/config_node.hh
+++ b/src/config/config_node.hh
@@ -25,6 +25,8 @@
 #define _H_CONFIG_NODE
 
 #include <boost/filesystem.hpp>
+#include <flint/flint.h>
+#include <flint/ulong_extras.h>
 #include <ostream>
 #include <string>
 #include <yaml-cpp/yaml.h>
@@ -53,7 +55,8 @@ struct ConfigNode
 
   inline bool verify() const
   {
-    return (    prime != 0 && prime_exponent != 0
+    // there are no tables for composite characteristic, and no enumeration for 2
+    return (    prime != 2 && n_is_prime(prime) && prime_exponent != 0
              && genus != 0 && count_exponent != 0
              && (is_directory(result_path) || create_directories(result_path))
              && package_size != 0
-- 
2.43.0


From ae7b3666e3064c3f401b82fc8d960ebdd9644ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:43 +0000
Subject: [PATCH 21/22] fix: do not use unset values when a result line is
 incomplete

---
 src/store/curve_data.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/store/curve_data.cc b/src/store/curve_data.cc
index 1b2425a..0b5521a 100644
--- a/src/store/curve_data.cc
+++ b/src/store/curve_data.cc
@@ -98,8 +98,10 @@ ValueType(
   char delimiter;
   
   while ( true ) {
-    stream >> read_int;
-    this->ramification_type.push_back(read_int);
+    if ( stream >> read_int )
+      this->ramification_type.push_back(read_int);
+    else // nothing was read
+      stream.clear();
   
     delimiter = stream.peek();
     if ( delimiter == ',' ) {
@@ -115,8 +117,10 @@ ValueType(
   }
 
   while ( true ) {
-    stream >> read_int;
-    this->hasse_weil_offsets.push_back(read_int);
+    if ( stream >> read_int )
+      this->hasse_weil_offsets.push_back(read_int);
+    else // nothing was read
+      stream.clear();
   
     delimiter = stream.peek();
     if ( delimiter == ',' ) {
-- 
2.43.0


From d74b3801e027ed13150e639490cb2c1a4eb5ba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:03 +0000
Subject: [PATCH 22/22] fix: compare counts by value, not by address

---
 src/store/store_data.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/store_data.hh b/src/store/store_data.hh
index f772bf1..b829df8 100644
--- a/src/store/store_data.hh
+++ b/src/store/store_data.hh
@@ -57,7 +57,7 @@ class Count
 
     inline bool operator==(const Count & rhs) const
     {
-      return this->value.counter == rhs.value.counter;
+      return fmpz_equal(this->value.counter, rhs.value.counter) == 1;
     };
 
     struct ValueType
-- 
2.43.0

