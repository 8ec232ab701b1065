S = '/repo/support/rs_std/'
BOUNDS = ('every value of every argument of 35 async functions and methods and 3 makers of DynFutures; 14 plans of up to 5 suspensions and waker uses; '
          'futures polled 0 to 6 times or to the end, then dropped, discarded or moved')
ASSUMPTIONS = ['one thread: a waker is not used while a Poll runs elsewhere', 'a stand-in replaces the bindings of cpp_waker.h']
UNITS = [E2E('fut', [('fut', 'fut.rs')], 'fut_ref.rs', ['fut.cc', S + 'waker.cc'],
             deps=[('erased_future', S + 'erased_future.rs'), ('dyn_erased_future', S + 'dyn_erased_future.rs')]),
         E2E('dynf', [('cpp_waker', 'cpp_waker.rs'), ('dyn_future', S + 'dyn_future.rs'), ('dynf', 'dynf.rs')], 'fut_ref.rs', ['dynf.cc', S + 'cpp_waker.cc'])]
