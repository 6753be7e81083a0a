/* verification stub: an assert becomes an obligation (dv/) */
#undef assert
void __dv_assert(_Bool);
#define assert(e) __dv_assert(e)
