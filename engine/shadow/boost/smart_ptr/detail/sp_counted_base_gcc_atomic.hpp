// Replaces Boost.SmartPtr's control block (a trusted dependency, not code under
// test) with an equivalent one that reports the operations that can matter to
// the schedule: releasing and locking. Copying an owning pointer commutes with
// everything another thread can do, weak counts only own the control block.
#ifndef VERIF_SP_COUNTED_BASE_HPP
#define VERIF_SP_COUNTED_BASE_HPP
#include <boost/smart_ptr/detail/sp_typeinfo_.hpp>
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include "conc.hpp"
#define VERIF_Q __attribute__(( no_sanitize( "thread" ) ))
namespace boost
{
namespace detail
{
class BOOST_SYMBOL_VISIBLE sp_counted_base
{
    sp_counted_base( sp_counted_base const & );
    sp_counted_base & operator= ( sp_counted_base const & );
    boost::int_least32_t use_count_, weak_count_;
public:
    VERIF_Q sp_counted_base(): use_count_( 1 ), weak_count_( 1 ) {}
    virtual ~sp_counted_base() {}
    virtual void dispose() = 0;
    virtual void destroy() { delete this; }
    virtual void * get_deleter( sp_typeinfo_ const & ti ) = 0;
    virtual void * get_local_deleter( sp_typeinfo_ const & ti ) = 0;
    virtual void * get_untyped_deleter() = 0;
    VERIF_Q void add_ref_copy() { ++use_count_; }
    VERIF_Q bool add_ref_lock()
    {
        conc::spPoint( &use_count_ );
        if ( use_count_ == 0 ) return false;
        ++use_count_; return true;
    }
    VERIF_Q void release()
    {
        conc::spPoint( &use_count_ );
        conc::spRelease( &use_count_ );
        if ( --use_count_ == 0 ) { conc::spAcquire( &use_count_ ); dispose(); weak_release(); }
    }
    VERIF_Q void weak_add_ref() { ++weak_count_; }
    VERIF_Q void weak_release()
    {
        conc::spRelease( &weak_count_ );
        if ( --weak_count_ == 0 ) { conc::spAcquire( &weak_count_ ); destroy(); }
    }
    VERIF_Q long use_count() const { conc::spPoint( &use_count_ ); return use_count_; }
};
} // namespace detail
} // namespace boost
#endif
