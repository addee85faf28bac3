#undef mutex
#undef recursive_mutex
#undef shared_mutex
#undef condition_variable
#undef condition_variable_any
#undef thread
#undef future
#undef async
#undef yield
#undef sleep_for
#undef sleep_until
#undef launch
