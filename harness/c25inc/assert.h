// Replaces the standard header in the C25 units: a failing assertion throws, so that the run goes on.
#undef assert
#ifdef NDEBUG
#define assert(...) (static_cast<void>(0))
#else
namespace c25 { [[noreturn]] void assertion_failed(); }
#define assert(...) (static_cast<bool>(__VA_ARGS__) ? static_cast<void>(0) : c25::assertion_failed())
#endif
