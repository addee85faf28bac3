// from here on the std thread names mean the stand-ins of vt.hh
#define mutex vt_mutex
#define recursive_mutex vt_recursive_mutex
#define shared_mutex vt_shared_mutex
#define condition_variable vt_condition_variable
#define condition_variable_any vt_condition_variable_any
#define thread vt_thread
#define future vt_future
#define async vt_async
#define yield vt_yield
#define sleep_for vt_sleep_for
#define sleep_until vt_sleep_until
#define launch vt_launch
