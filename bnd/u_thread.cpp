// Thread pool: every task once, wait() after all, exceptions reported, removed tasks skipped.  Built with ThreadSanitizer.
#include "core.h"
#include "thread_pool.h"
#include <atomic>
#include <chrono>
#include <thread>
namespace {
void jitter( uint64_t v ) { switch ( v % 8 ) { case 0: std::this_thread::yield(); break; case 1: std::this_thread::sleep_for( std::chrono::microseconds( v / 8 % 60 ) ); break; default: break; } }
struct Book {
    std::vector<std::atomic<uint32_t>> hits; std::vector<uint8_t> bad; std::atomic<uint32_t> over{ 0 }; std::atomic<uint32_t> inside{ 0 }; uint64_t salt = 0; std::atomic<bool> * gate = nullptr;
    std::atomic<uint32_t> started{ 0 };
    explicit Book( size_t n ) : hits( n ), bad( n, 0 ) { for ( auto & h : hits ) h = 0; }
    void task( size_t id )
    {
        ++inside; ++started;
        if ( gate ) while ( !gate->load() ) std::this_thread::sleep_for( std::chrono::microseconds( 50 ) );
        jitter( salt * 2654435761u + id * 40503u );
        if ( id < hits.size() ) ++hits[id]; else ++over;
        const bool b = id < bad.size() && bad[id];
        --inside;
        if ( b ) throw penguinVException( "task" );
    }
};
template <typename Base> struct Provider : Base {
    Book * book = nullptr;
    Provider() {}
    explicit Provider( ThreadPool * p ) : Base( p ) {}
    void run( Book & b ) { book = &b; this->_run( b.hits.size() ); }
    bool wait() { return this->_wait(); }
    bool ready() { return this->_ready(); }
    void _task( size_t id ) override { book->task( id ); }
};
using P = Provider<TaskProvider>;
using PS = Provider<TaskProviderSingleton>;
void once( const Book & b, const char * who )
{
    CHECK( "value", b.inside == 0, "%s: wait returned while %u tasks were running", who, b.inside.load() );
    CHECK( "value", b.over == 0, "%s: %u executions with a task id beyond the task count", who, b.over.load() );
    for ( size_t i = 0; i < b.hits.size(); ++i ) CHECK( "value", b.hits[i] == 1, "%s: task %zu of %zu executed %u times", who, i, b.hits.size(), b.hits[i].load() );
}
size_t count( Rng & r ) { return r.pick<size_t>( { 1, 2, 3, 4, 7, 8, 9, 16, 33, 100 } ); }
template <typename Q> void rounds( Rng & r, std::vector<std::unique_ptr<Q>> & ps, ThreadPool & pool, bool resize )
{
    const uint32_t n = r.range( 1, 3 );
    for ( uint32_t k = 0; k < n; ++k ) {
        std::vector<std::unique_ptr<Book>> bs;
        std::vector<bool> fails;
        for ( auto & p : ps ) {
            bs.emplace_back( new Book( count( r ) ) ); Book & b = *bs.back(); b.salt = r.u64();
            bool f = false;
            if ( r.chance( 35 ) ) for ( auto & x : b.bad ) if ( r.chance( 30 ) ) { x = 1; f = true; }
            fails.push_back( f );
            note( "%zu tasks%s; ", b.hits.size(), f ? " some throw" : "" );
            CHECK( "value", p->ready(), "provider not ready" );
            p->run( b );
            if ( resize && r.chance( 50 ) ) { const size_t t = r.range( 1, 9 ); note( "resize %zu; ", t ); pool.resize( t ); CHECK( "value", pool.threadCount() == t, "thread count %zu after resize to %zu", pool.threadCount(), t ); }
        }
        for ( size_t i = 0; i < ps.size(); ++i ) {
            const bool ok = ps[i]->wait();
            once( *bs[i], "run" );
            CHECK( "value", ok == !fails[i], "wait returned %d although %s task threw", ok, fails[i] ? "a" : "no" );
            CHECK( "value", ps[i]->ready(), "provider not ready after wait" );
            CHECK( "value", ps[i]->wait(), "second wait does not report success" );
        }
        CHECK( "value", pool.empty(), "tasks left in the pool" );
    }
}
void runPool( Rng & r )
{
    const size_t t = r.range( 1, 8 ); note( "threads %zu: ", t );
    ThreadPool pool( t );
    std::vector<std::unique_ptr<P>> ps; const uint32_t n = r.range( 1, 4 );
    for ( uint32_t i = 0; i < n; ++i ) ps.emplace_back( new P( &pool ) );
    rounds( r, ps, pool, false );
}
void runResize( Rng & r )
{
    const size_t t = r.range( 1, 8 ); note( "threads %zu: ", t );
    ThreadPool pool( t );
    std::vector<std::unique_ptr<P>> ps; const uint32_t n = r.range( 1, 3 );
    for ( uint32_t i = 0; i < n; ++i ) ps.emplace_back( new P( &pool ) );
    rounds( r, ps, pool, true );
    if ( r.chance( 40 ) ) {
        note( "stop; " ); pool.stop(); CHECK( "value", pool.threadCount() == 0, "threads left after stop" );
        CHECK( "value", ps[0]->wait(), "wait after stop" );
        bool thrown = false; Book b( 3 );
        try { ps[0]->run( b ); } catch ( const penguinVException & ) { thrown = true; }
        CHECK( "value", thrown, "tasks accepted by a pool without threads" );
        pool.resize( r.range( 1, 5 ) );
        std::vector<std::unique_ptr<P>> qs; qs.emplace_back( new P( &pool ) );
        rounds( r, qs, pool, true );
    }
}
void runSingleton( Rng & r )
{
    ThreadPool & pool = ThreadPoolMonoid::instance();
    pool.resize( r.range( 1, 8 ) ); note( "threads %zu: ", pool.threadCount() );
    std::vector<std::unique_ptr<PS>> ps; const uint32_t n = r.range( 1, 4 );
    for ( uint32_t i = 0; i < n; ++i ) ps.emplace_back( new PS );
    rounds( r, ps, pool, r.chance( 30 ) );
}
void runSkip( Rng & r )   // remove, clear and stop while tasks are waiting
{
    const size_t t = r.range( 1, 5 ); const int how = static_cast<int>( r.below( 4 ) );
    note( "threads %zu %s: ", t, how == 0 ? "remove" : how == 1 ? "clear" : how == 2 ? "remove other" : "stop" );
    ThreadPool pool( t );
    std::atomic<bool> gate( false );
    Book blockers( t ); blockers.gate = &gate;
    P bp( &pool ); bp.run( blockers );
    while ( blockers.started < t ) std::this_thread::sleep_for( std::chrono::microseconds( 50 ) );
    const uint32_t n = r.range( 1, 3 );
    std::vector<std::unique_ptr<P>> ps; std::vector<std::unique_ptr<Book>> bs;
    for ( uint32_t i = 0; i < n; ++i ) { ps.emplace_back( new P( &pool ) ); bs.emplace_back( new Book( count( r ) ) ); note( "%zu tasks; ", bs[i]->hits.size() ); ps[i]->run( *bs[i] ); }
    std::thread stopper;
    const uint32_t victim = r.below( n );
    if ( how == 0 ) pool.remove( ps[victim].get() );
    else if ( how == 1 ) pool.clear();
    else if ( how == 2 ) { P other( &pool ); pool.remove( &other ); }
    else { stopper = std::thread( [&] { pool.stop(); } ); for ( int i = 0; i < 4000 && !pool.empty(); ++i ) std::this_thread::sleep_for( std::chrono::microseconds( 50 ) ); }
    if ( how == 1 || how == 3 ) CHECK( "value", pool.empty(), "tasks left in the pool after it was cleared" );
    std::vector<bool> early( n, false );
    for ( uint32_t i = 0; i < n; ++i )
        if ( how == 1 || how == 3 || ( how == 0 && i == victim ) ) { CHECK( "value", ps[i]->wait(), "wait fails after the tasks were removed" ); early[i] = true; }
    gate = true;
    CHECK( "value", bp.wait(), "blocking tasks failed" ); once( blockers, "blocking tasks" );
    if ( stopper.joinable() ) stopper.join();
    for ( uint32_t i = 0; i < n; ++i ) {
        if ( early[i] ) { for ( auto & h : bs[i]->hits ) CHECK( "value", h == 0, "removed task executed" ); continue; }
        CHECK( "value", ps[i]->wait(), "wait failed" ); once( *bs[i], "remaining tasks" );
    }
    if ( how != 3 ) { std::vector<std::unique_ptr<P>> qs; qs.emplace_back( new P( &pool ) ); rounds( r, ps, pool, false ); }
}
void runPartial( Rng & r )   // remove while some tasks of the same provider are running
{
    const size_t t = r.range( 1, 4 ), n = t + r.range( 1, 40 );
    note( "threads %zu tasks %zu removed while running", t, n );
    ThreadPool pool( t ); std::atomic<bool> gate( false );
    Book b( n ); b.gate = &gate; P p( &pool ); p.run( b );
    while ( b.started < t ) std::this_thread::sleep_for( std::chrono::microseconds( 50 ) );
    const bool clear = r.chance( 50 );
    if ( clear ) pool.clear(); else pool.remove( &p );
    gate = true;
    CHECK( "value", p.wait(), "wait fails" );
    CHECK( "value", b.inside == 0, "wait returned while tasks were running" );
    uint32_t sum = 0; for ( auto & h : b.hits ) { CHECK( "value", h <= 1, "task executed twice" ); sum += h; }
    CHECK( "value", sum == t && b.over == 0, "%u executions, %zu expected", sum, t );
    std::vector<std::unique_ptr<P>> qs; qs.emplace_back( new P( &pool ) ); rounds( r, qs, pool, false );
}
void runArgs( Rng & r )
{
    bool thrown = false; ThreadPool pool( r.range( 1, 3 ) ); P p( &pool );
    note( "invalid arguments" );
    try { pool.add( &p, 0 ); } catch ( const penguinVException & ) { thrown = true; }
    CHECK( "value", thrown, "zero tasks accepted" ); thrown = false;
    const size_t before = pool.threadCount();
    try { pool.resize( 0 ); } catch ( const penguinVException & ) { thrown = true; }
    CHECK( "value", thrown && pool.threadCount() == before, "resize to zero threads accepted" );
    P q; CHECK( "value", !q.ready(), "provider without pool is ready" ); Book b( 4 ); q.run( b ); CHECK( "value", q.wait(), "wait without pool" );
    for ( auto & h : b.hits ) CHECK( "value", h == 0, "task executed without pool" );
    q.setThreadPool( &pool ); q.run( b ); CHECK( "value", q.wait(), "wait" ); once( b, "after setThreadPool" );
    P c( q ); Book b2( count( r ) ); c.run( b2 ); CHECK( "value", c.wait(), "wait of a copy" ); once( b2, "copied provider" );
    Book e( 0 ); c.run( e ); CHECK( "value", c.wait(), "wait after zero tasks" );
}
const Reg a1( "thread.run", 400, runPool ), a2( "thread.resize", 300, runResize ), a3( "thread.singleton", 300, runSingleton ), a4( "thread.skip", 300, runSkip ), a5( "thread.partial", 200, runPartial ), a6( "thread.args", 100, runArgs );
}
