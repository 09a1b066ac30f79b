"""Writes properties.jsonl (kept as a generator so the text is easy to edit)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))
    assert len(title) <= 80, (id, len(title))

CD = 'cache_dependencies/'
DJ = 'django_cache_dependencies/'

p('C01', 'An invalidated record is never served again',
  "Once an invalidation of a tag has returned, no read (single, bulk or read-or-compute; any thread; any handle on the same cache) returns a value that was stored under that tag, in the same cache version, before the invalidation began. This stays true for ever: storing new records under the tag, invalidating it again, or expiry or eviction of the cache's own tag bookkeeping never revives an old value.",
  ['histories', 'inputs', 'schedules'],
  "Every sequence of stores, reads, invalidations, deletes, evictions and clock advances over any keys, tags, values and cache versions, issued from one or several threads, at any isolation level, interleaved at backend-operation granularity.",
  "The tests invalidate a handful of fixed tags right after storing; they never combine re-use, eviction of bookkeeping, bulk reads, several threads and dependency objects in one history, nor interleave a store with an invalidation.",
  [CD+'tagging.py', CD+'cache.py', CD+'dependencies.py', CD+'utils.py'],
  [('TagsDependency.invalidate deletes the tag version records', CD+'dependencies.py'),
   ('TagsDependency.validate compares recorded with actual tag versions', CD+'dependencies.py'),
   ('unique tag versions', CD+'utils.py: generate_tag_version'),
   ('CacheWrapper.get/get_many discard records whose dependency is invalid', CD+'cache.py')],
  [('tag version record', 'current version of a tag; a record is valid while it matches', 'backend key made by utils.make_tag_key')],
  ['caches[alias].get/get_many/get_or_set_callback return values'])

p('C02', 'A valid record keeps being served, unchanged',
  "A value that was stored while none of its tags was locked, or being stored under, by another session is returned, equal to what was stored, by every read until it is overwritten, deleted, its timeout passes, or one of its own or inherited tags is invalidated (within the one-day life of tag bookkeeping). Reading, storing, deleting or aborting other keys, and invalidating tags the record does not carry or the same tag in another cache version, never drops or alters it.",
  ['histories', 'inputs'],
  "Every sequential history of stores, nested builds, reads and invalidations, over any picklable value (falsy values and None included), any tag names and any way of passing tags.",
  "Over-invalidation is invisible to tests that only check that something became None; the tests store two or three string values and never check that an unrelated history leaves them in place.",
  [CD+'tagging.py', CD+'cache.py', CD+'dependencies.py', CD+'relations.py'],
  [('CacheWrapper.set packs value and evaluated dependency', CD+'cache.py'),
   ('TagsDependency.evaluate re-uses existing tag versions and creates only missing ones', CD+'dependencies.py'),
   ('deferred aggregation hands each dependency its own keys', CD+'defer.py')],
  observe=['return values of reads compared with a reference model'])

p('C03', 'A composite record inherits the tags of everything used to build it',
  "While the value of a record is being built (between the single read or read-or-compute that missed and the store), every record that is read with a hit or stored, at any nesting depth, through single, bulk or read-or-compute calls, passes its own and inherited tags to the record being built and to all enclosing builds, whatever the values (a computed None included). Therefore, once a composite has been stored, invalidating any tag of anything it was built from, directly or transitively, makes the composite unreadable.",
  ['programs', 'histories', 'inputs'],
  "Every properly nested program of builds (read miss, work, store or abort), any depth and width, with hits, misses, bulk reads, aborted and failing inner builds, several composites sharing fragments, and repeated rebuilds.",
  "One test nests exactly two keys; bulk reads, depth > 2, shared fragments, composites rebuilt from hits and failing inner builds are never composed.",
  [CD+'relations.py', CD+'cache.py', CD+'dependencies.py'],
  [('RelationManager keeps the current build node and its parent', CD+'relations.py'),
   ('CacheNode.add_dependency forwards to the parent node', CD+'relations.py'),
   ('CacheWrapper.begin/finish/set', CD+'cache.py'),
   ('CompositeDependency.extend merges dependencies', CD+'dependencies.py')],
  [('current build node', 'innermost record being built by this thread', 'RelationManager')],
  ['return values of reads after invalidating an inherited tag'])

p('C04', 'Build tracking never tags an unrelated record',
  "A record inherits tags only from records read or stored during its own build: finished, aborted, failed or closed builds, records read outside any build, and siblings contribute nothing to other records, so invalidating a tag a record was not built from never drops it. Turning dependency tracking off, for one read or for the whole cache handle, makes that read or every build on that handle contribute and inherit nothing.",
  ['programs', 'histories', 'configurations'],
  "Every nested program of builds with aborts, exceptions, closes, opted-out reads and handles with tracking turned off, followed by invalidation of foreign tags.",
  "No test stores a record after another build was finished, aborted or failed and then checks that it does not carry that build's tags; the documented opt-outs are exercised by one call whose effect is not asserted.",
  [CD+'relations.py', CD+'cache.py', CD+'tagging.py'],
  [('RelationManager.pop restores the parent as current build', CD+'relations.py'),
   ('CacheWrapper.abort/close', CD+'cache.py'),
   ('ignore_descendants and abort=True', CD+'cache.py')],
  observe=['return values of reads after invalidating a foreign tag'])

p('C05', 'A bulk read agrees with single reads',
  "A bulk read of any collection of keys returns exactly the keys, with exactly the values, that single reads of those keys would return at that moment: present and valid records are included, missing, expired or invalidated ones are left out, and one invalid record never hides or damages another. The keys may be given as any iterable, and the bulk read has the same effect on enclosing builds as single reads of the hits.",
  ['inputs', 'histories'],
  "Any cache contents (tagged, untagged, raw, composite, expired and invalid records mixed), any iterable of keys (lists, tuples, sets, generators, duplicates, unknown keys), any version, inside and outside builds.",
  "The tests bulk-read two keys given as a tuple; mixtures of invalid records, records sharing tags, raw values and one-shot iterables are not tried.",
  [CD+'cache.py', CD+'dependencies.py', CD+'defer.py', CD+'exceptions.py'],
  [('CacheWrapper.get_many', CD+'cache.py'),
   ('CompositeDependency.validate collects the errors of all delegates', CD+'dependencies.py'),
   ('GetManyDeferredIterator distributes one backend reply over callbacks', CD+'defer.py')],
  observe=['get_many result compared with get results'])

p('C06', 'Backend round trips do not grow with the number of keys or tags',
  "Reading one record costs at most two backend operations and a bulk read of any number of records, carrying any number of tags, also at most two. The number of backend operations of a store, an invalidation or the end of a transaction does not depend on how many tags or inherited tags are involved.",
  ['inputs', 'programs'],
  "Any number of keys, tags per record, shared and disjoint tag sets, depth of inheritance, mixtures of tagged, untagged and raw records.",
  "The tests never count backend operations at the level of the cache API; a change that reads tags one by one passes all of them.",
  [CD+'defer.py', CD+'dependencies.py', CD+'cache.py'],
  [('Deferred aggregation of get_many calls', CD+'defer.py'),
   ('bulk set_many/delete_many in TagsDependency', CD+'dependencies.py')],
  observe=['backend operation counters around each API call'])

p('C07', 'Cache versions are independent namespaces',
  "Records, tags and invalidations of one cache version never affect another: a store or invalidation with one version leaves every record of the other versions as it was, and a read with a version only ever returns what was stored with that version. Omitting the version means the cache's default version, for stores, reads, inheritance and invalidations (inside and outside transactions) alike.",
  ['inputs', 'histories'],
  "All histories over the same keys and tags in several versions, including omitted versus explicit default version, in and out of transactions and builds.",
  "The tests pass versions only to dependency objects with mocks and to the stub backend; the cache API is never driven with two versions of the same key and tag.",
  [CD+'cache.py', CD+'dependencies.py', CD+'relations.py', CD+'transaction.py', CD+'tagging.py'],
  [('version is passed to every backend call', CD+'dependencies.py'),
   ('per-version dependencies of builds and transactions', CD+'relations.py, '+CD+'transaction.py')],
  observe=['reads with each version after operations on another'])

p('C08', 'Timeouts bound how long a record is served, in every call style',
  "A record is never returned after its timeout has elapsed and is returned until then if it stays valid; without a timeout the cache's default timeout applies. The tagged call style (value, tags, timeout, version), the native call style (value, timeout, version) and keyword arguments mean the same thing, for stores and for read-or-compute.",
  ['inputs', 'histories'],
  "All timeouts, positional and keyword combinations of tags, timeout and version, and clock advances up to and beyond the deadline.",
  "Only one native-style call is tested, and no test lets a tagged record reach its timeout.",
  [CD+'tagging.py', CD+'cache.py'],
  [('CacheTagging.set argument interpretation', CD+'tagging.py'),
   ('CacheWrapper.set hands the timeout to the backend', CD+'cache.py')],
  observe=['reads just before and after the deadline on a virtual clock'])

p('C09', 'Dependencies compose, and the caller keeps its own objects',
  "A record stored with a combination of dependencies (nested composites, tag sets and application-defined kinds) is served if and only if every part is valid, is not stored if and only if some part is locked, and invalidating, acquiring or releasing the combination does so for every part. Dependency objects and tag collections passed in by the caller are never modified and may be re-used for any number of stores and invalidations; a dependency does not follow later changes of a collection or dependency it was made from.",
  ['inputs', 'programs'],
  "Any tree of dependencies of the library's kinds and application-defined kinds in any order (with or without batched reads), any validity/lock state of each leaf, re-used across keys, transactions and threads.",
  "The composite dependency has no direct test; the deferred machinery is tested with one hand-made chain.",
  [CD+'dependencies.py', CD+'defer.py', CD+'exceptions.py', CD+'cache.py'],
  [('CompositeDependency', CD+'dependencies.py'), ('Deferred chaining', CD+'defer.py'),
   ('copy on extend', CD+'dependencies.py: __copy__')],
  observe=['served/not served versus the state of each leaf; snapshot of caller objects before and after'])

p('C10', 'Operations outside tagging behave exactly like the wrapped cache',
  "For every operation the tagging layer does not redefine (add, delete, bulk store and delete, counters, existence tests, membership, clear, version changes), results and effects are exactly those of the wrapped cache. Values put into the wrapped cache directly are returned by single and bulk reads through the tagging layer unchanged, and untagged stores and reads through the layer agree with the wrapped cache.",
  ['histories', 'inputs'],
  "All histories of native operations through the tagging handle, through the default-cache proxy and on the bare backend, compared with a shadow instance of the bare backend.",
  "One native set/get pair is tested.",
  [CD+'tagging.py', CD+'cache.py', DJ+'__init__.py'],
  [('__getattr__ delegation', CD+'tagging.py, '+CD+'cache.py'), ('DefaultCacheProxy', DJ+'__init__.py'),
   ('raw values are unpacked as themselves', CD+'cache.py: _unpack_data')],
  observe=['return values and backend contents against a shadow backend'])

p('C11', 'The adapter base class derives consistent operations from primitives',
  "For any cache adapter that supplies only the primitive operations, the derived ones (bulk get/store/delete, existence, membership, counters, version moves) behave as the corresponding sequence of primitive operations on the same keys and versions. Key validation never rejects a key: it only warns, exactly for keys too long or containing characters not portable to memcached.",
  ['inputs', 'histories'],
  "All histories of derived and primitive operations over any keys, deltas and versions, compared with a reference dictionary.",
  "The tests exercise the stub with a few fixed keys; no key ever triggers the warning branch.",
  [CD+'cache.py'],
  [('AbstractCache', CD+'cache.py')],
  observe=['adapter results against a reference dictionary; warnings issued'])

p('T01', 'Ending a transaction invalidates again everything it invalidated',
  "At READ COMMITTED and stricter levels, once the outermost transaction has ended (commit or rollback, normally, through an exception or by flushing), no read returns a value that was stored before the end, by any session, under any tag that was invalidated anywhere inside it, nested transactions and every cache version included. The end of a nested transaction alone neither forgets nor completes those invalidations.",
  ['schedules', 'histories'],
  "All interleavings, at backend-operation granularity, of sessions that store, read and invalidate inside and outside (nested) transactions, ended in every way.",
  "The tests run one thread and a fixed script at one isolation level; no other session ever stores between the invalidation and the end of the transaction.",
  [CD+'transaction.py', CD+'locks.py', CD+'dependencies.py'],
  [('Transaction.add_dependency/finish, SavePoint forwards to its parent', CD+'transaction.py'),
   ('release of the dependency lock', CD+'locks.py')],
  [('dependencies of a transaction', 'tags invalidated so far, per version', 'Transaction')],
  ['event log of API calls of all sessions; values carry unique ids'])

p('T02', 'Repeatable-read locks keep other sessions from storing, then let go',
  "At REPEATABLE READ and SERIALIZABLE, from the moment a transaction's invalidation of a tag returns until the outermost transaction ends, no store under that tag by another session takes effect (it is silently skipped), while the transaction's own stores do, unless yet another session invalidates the same tag meanwhile. After the end, stores by transactions that began no later than that end plus the configured delay are still skipped, and stores by later ones take effect again; all of this for as long as lock records are retained (5 seconds, plus the delay after the end), and in the same cache version only.",
  ['schedules', 'histories', 'configurations'],
  "All interleavings of several sessions' transactions, nested transactions and plain stores over shared and disjoint tags and versions, with clock values that are coarse (equal) or fine (a transaction lasting at least one tick), and configured delays.",
  "The tests call the dependency object with mocked transactions at a few fixed times; locks are never exercised through the cache API with two sessions, coarse clocks, several tags or inherited tags.",
  [CD+'locks.py', CD+'dependencies.py', CD+'transaction.py', CD+'cache.py'],
  [('AcquiredTagState/ReleasedTagState', CD+'dependencies.py'),
   ('RepeatableReadDependencyLock', CD+'locks.py'),
   ('CacheWrapper.set skips the store on DependencyLocked', CD+'cache.py')],
  [('acquired_/released_ records', 'who holds or released a tag, and when', 'backend')],
  ['which stores took effect, from reads of unique values'])

p('T03', 'After a commit no reader gets data from before it',
  "With REPEATABLE READ (or SERIALIZABLE) configured for the cache and for the database, when a transaction has changed data, invalidated the matching tags, committed and ended, every later read returns either a miss or a value computed from data that includes that commit, and never data of a rolled-back transaction. Readers may be in the middle of computing and storing in their own transactions, and several writers of the same tags may overlap, as long as transactions are shorter than the retention of lock records.",
  ['schedules', 'histories'],
  "All interleavings at backend-operation granularity (bulk backend operations atomic) of snapshot-isolated readers and writers shorter than the lock retention, with commits and rollbacks, over shared rows and tags.",
  "No test has a database, a second session or any interleaving; this is an end-to-end property of several modules.",
  [CD+'transaction.py', CD+'locks.py', CD+'dependencies.py', CD+'cache.py'],
  [('start/end times and session ids decide who may store', CD+'dependencies.py: is_locked'),
   ('release at the end of the transaction', CD+'locks.py')],
  observe=['every read value carries the row versions it was computed from'])

p('T04', 'The configured replication delay is honoured',
  "With a delay (whole or fractional seconds) configured at READ UNCOMMITTED or READ COMMITTED, values stored under the affected tags between the end of the invalidating transaction and the end of the delay are no longer served once the delay has elapsed, and values stored after it are untouched. At REPEATABLE READ and stricter, transactions of other sessions that start within the delay cannot store under those tags; without a delay nothing is invalidated or refused later than the end of the transaction.",
  ['histories', 'configurations', 'schedules'],
  "All histories of stores around the end of a transaction and the end of the delay, in any version, at every isolation level, several delayed invalidations pending at once, and pending work executed in its own thread.",
  "Two tests sleep two seconds and look at a mock; nothing checks which stored values survive, versions, or the configured wiring of the delay.",
  [CD+'locks.py', CD+'dependencies.py', DJ+'__init__.py'],
  [('_release_dependency_delayed', CD+'locks.py'), ('ReleasedTagState.delay', CD+'dependencies.py'),
   ('CACHE_TAGGING DELAY option', DJ+'__init__.py')],
  observe=['reads of values stored before, during and after the delay, on a virtual clock'])

p('T05', 'Transaction scopes always close exactly once and nest',
  "A scope opened as a context manager, decorator, request middleware or explicit begin is closed exactly once however its body ends; inner scopes belong to the outermost one, whose end alone completes them, and flushing ends every open scope. Decorated functions keep their arguments, return value and exceptions, and afterwards the session is exactly as deep in transactions as before (or in none after a flushing form); a function decorated with the transaction control of a cache may be called in any thread.",
  ['programs', 'histories'],
  "All nestings and sequences of context managers, decorators (called with and without arguments, current and deprecated forms), middleware and explicit calls, with bodies that return or raise, including ends without a begin.",
  "The tests use each form once with a body that does not raise.",
  [CD+'transaction.py', CD+'tagging.py', DJ+'decorators.py', DJ+'middleware.py'],
  [('TransactionManager begin/finish/flush', CD+'transaction.py'),
   ('AbstractTransactionManager.__call__/__enter__/__exit__', CD+'transaction.py'),
   ('cache_transaction, cache_transaction_all', DJ+'decorators.py'), ('TransactionMiddleware', DJ+'middleware.py')],
  observe=['observable depth: whether invalidations inside are completed at the scope end'])

p('T06', 'Threads are isolated and handles are confined to their thread',
  "Within a thread a cache alias always yields the same handle, and different threads never share one; one thread's open transactions and builds never change what another thread's stores inherit or whether its transactions complete, and no thread, delayed invalidations included, operates on another thread's connection to the cache. Attributes set through the proxy of the default cache go to the calling thread's handle. Using a handle's transaction control or build tracking from a thread other than its own raises an error and leaves the owner's transaction and build state untouched.",
  ['schedules', 'programs'],
  "All interleavings of several threads opening transactions and building records through the same alias, and every public operation of a handle's transaction and build tracking tried from a foreign thread at any moment.",
  "All tests are single-threaded.",
  [CD+'mixins.py', CD+'relations.py', CD+'transaction.py', DJ+'__init__.py'],
  [('CacheCollection keeps handles in thread-local storage', DJ+'__init__.py'),
   ('ThreadSafe*Decorator validates the calling thread', CD+'mixins.py')],
  observe=['identity of handles; exceptions from foreign calls; results of the owner afterwards'])

p('T07', 'Concurrent sessions are never mistaken for one another',
  "Two threads that are alive at the same time, in the same process, in a parent and its forked children, or in sibling processes, always have different session identities, and a session keeps its identity for its whole life; hence a lock taken by one is always respected by all others. Tag versions generated anywhere, by any number of threads and processes, never coincide.",
  ['schedules', 'configurations'],
  "Any number of threads and forked processes, forked before or after the cache was first used, in any order of first use.",
  "One test checks that an identity is stable in one thread; no test starts a thread or forks.",
  [CD+'utils.py', CD+'transaction.py', CD+'dependencies.py'],
  [('get_thread_id', CD+'utils.py'), ('generate_tag_version', CD+'utils.py')],
  observe=['session identities and tag versions collected from many threads and processes; cross-process lock respected'])

p('R01', 'Backend faults and evictions cost misses, never stale data',
  "If any backend operation fails, or the backend drops any records or tag bookkeeping at any moment, no acknowledged invalidation is undone: reads afterwards return a valid value or a miss. A failed end of a transaction can be retried, and once the backend works again flushing or closing the handle completes every pending invalidation, and the next transactions and builds start clean.",
  ['fault_sequences', 'crash_points', 'histories'],
  "A failure injected at every backend operation of every generated scenario (before or after it took effect), and evictions of arbitrary backend keys (lock records excepted) between any two operations.",
  "No test injects a failure or an eviction.",
  [CD+'cache.py', CD+'transaction.py', CD+'locks.py', CD+'dependencies.py'],
  [('TransactionManager.finish pops only after a successful finish', CD+'transaction.py'),
   ('CacheWrapper.set finishes the build in finally', CD+'cache.py'), ('CacheWrapper.close', CD+'cache.py')],
  observe=['reads and backend contents after the fault'])

p('R02', 'Per-thread state does not accumulate',
  "After the builds and transactions a thread started have been finished, aborted or flushed, or the handle was closed, the library keeps no per-key, per-tag or per-transaction state for that thread. Repeating any workload with ever new keys and tags therefore does not make a long-lived thread's library state grow, and the state of a thread that has ended goes with it.",
  ['histories', 'programs'],
  "All balanced workloads (every missed read followed by a store or abort; bulk reads with arbitrary misses), repeated with fresh keys and tags, at every isolation level, without closing the handle.",
  "No test repeats an operation and looks at what is left behind.",
  [CD+'relations.py', CD+'cache.py', CD+'transaction.py', DJ+'__init__.py'],
  [('RelationManager.pop', CD+'relations.py'), ('TransactionManager.finish', CD+'transaction.py'),
   ('CacheWrapper.get_many', CD+'cache.py')],
  observe=['live library objects counted by the garbage collector between rounds'])

p('D01', 'A template fragment is never served after any of its tags was invalidated',
  "A rendered page contains a cached fragment only if none of the tags given as arguments, as a list, added inside its body, or belonging to fragments nested in it or to values of the same cache read while rendering it has been invalidated since it was rendered; otherwise the body is rendered again. While its tags stay valid the fragment is served without rendering its body, even if its output is empty.",
  ['programs', 'inputs', 'histories'],
  "All templates made of fragments nested and in sequence, inside conditionals, loops, variable scopes and inclusions, with any way of giving tags, rendered repeatedly among invalidations, with and without a request in the context (inclusions that share the context).",
  "The tests render three fixed single-fragment templates.",
  [DJ+'templatetags/cache_tagging_tags.py', CD+'cache.py', CD+'relations.py'],
  [('CacheNode.render, CacheAddTagsNode.render', DJ+'templatetags/cache_tagging_tags.py')],
  observe=['rendered text carrying the epoch of every tag it depends on; body render counts'])

p('D02', 'A cached page is never served after one of its tags was invalidated',
  "A page cached by the view decorator or by the cache middleware (single-class or two-part) is served from cache only while no tag from the decorator's tag function, from fragments rendered in it, or from values of the same cache read while producing it has been invalidated, for every variant of the page. Otherwise the view runs again; while everything stays valid, the same request gets the cached page without running the view, and no Expires or max-age header is added by the library.",
  ['histories', 'inputs', 'configurations'],
  "All sequences of requests (paths, query strings, GET/HEAD, Vary header values), page variants, fragments hit or missed during the view, plain and template responses, function and class views, and invalidations.",
  "The tests request one page three times and invalidate its one decorator tag; variants, inherited tags and the two-part middleware are not tried.",
  [DJ+'middleware.py', DJ+'decorators.py', DJ+'utils.py', CD+'cache.py'],
  [('UpdateCacheMiddleware.process_response', DJ+'middleware.py'), ('learn_cache_key', DJ+'utils.py'),
   ('FetchFromCacheMiddleware.process_request', DJ+'middleware.py')],
  observe=['response bodies carrying the epoch of every tag; view execution counts'])

p('D03', 'Only cacheable responses are cached, and never for another request',
  "A response is stored only for GET and HEAD requests, with status 200, not streaming, with a non-zero max-age if one is given, and when nothing during the request prevented caching (explicitly, or from inside a fragment at any nesting), and, if only anonymous users are to be cached, not for an authenticated user whose session was used; preventing also keeps every enclosing fragment from being stored. A stored page is only ever served for the same URL, key prefix, method class, cache alias and the same values of the headers it varies on, and not beyond its lifetime.",
  ['inputs', 'histories', 'configurations'],
  "All combinations of method, status, streaming, Cache-Control, Vary, prevention (in the view, in fragments sharing one context, inside loops and scopes), prefixes, aliases and lifetimes.",
  "Only plain 200 GET responses are tested; prevention is tested in one flat template.",
  [DJ+'middleware.py', DJ+'utils.py', DJ+'decorators.py', DJ+'templatetags/cache_tagging_tags.py'],
  [('_should_update_cache/process_response/process_request', DJ+'middleware.py'),
   ('prevent_cache_page, learn_cache_key', DJ+'utils.py'), ('cache_tagging_prevent', DJ+'templatetags/cache_tagging_tags.py')],
  observe=['which requests run the view; body identity per request class'])

p('D04', 'Saving or deleting a registered model invalidates its tags',
  "Once a save or a delete of an instance of a registered model has returned, no read on the cache alias it was registered for returns a value stored before it under any tag the registered function yields for that instance; other tags, other aliases and other models are untouched. This holds for every registration form: tag functions taking the object or the signal arguments, yielding one tag or a collection, several registrations of one model, default or named alias.",
  ['histories', 'inputs', 'configurations'],
  "All sequences of creates, saves, instance and queryset deletes over several models and registrations, inside and outside transactions.",
  "Two models with one registration form are saved; nothing is ever deleted.",
  [DJ+'__init__.py'],
  [('CacheRegistry.register connects post_save and pre_delete', DJ+'__init__.py'), ('_clear_cached', DJ+'__init__.py')],
  observe=['reads of values stored under the tags'])

p('D05', 'Uncached blocks run on every rendering, and only genuine ones run',
  "Text around uncached blocks is returned byte for byte, and every uncached block is executed exactly once per rendering, in order, with the current context plus the data captured when the block was produced, its output replacing exactly that block, nested blocks included. A block is executed only if it carries the site's secret: text that merely looks like such a block, with a missing or different secret, is returned verbatim and never executed.",
  ['inputs', 'programs'],
  "All texts mixing static content, genuine blocks (any indentation, unicode, captured data, nested production of further blocks) and forged blocks, for any secret, rendered repeatedly directly and through cached fragments whose outermost one processes the blocks.",
  "One template is rendered twice; forged blocks are never tried.",
  [CD+'nocache.py', DJ+'templatetags/cache_tagging_tags.py'],
  [('NoCache.handle', CD+'nocache.py'), ('CacheNode.render nocache branch', DJ+'templatetags/cache_tagging_tags.py')],
  observe=['rendered text against an independent evaluator; execution counts'])

p('D06', 'The file backend stores atomically',
  "What was stored in the file-based backend is what a later read returns, until its timeout passes or it is deleted, per key and version. A reader concurrent with any number of writers, or reading after a writer failed or was killed at any moment of a store, sees a complete old or complete new value (or a miss if there was none), never a torn one and never another key's. A store that fails with an error leaves no file behind, and culling keeps the number of records bounded by the configured maximum, up to the stores between occasional cullings.",
  ['schedules', 'crash_points', 'inputs'],
  "Concurrent writers and readers in threads and processes, and a kill or I/O failure at every file operation of a store.",
  "The file backend has no test at all.",
  [DJ+'backends.py'],
  [('write to a temporary file, then rename', DJ+'backends.py: FileBasedCache.set')],
  observe=['values with checksums read during and after concurrent or interrupted stores'])

p('D07', 'Nothing of a request survives into the next one',
  "When a request has finished, the worker thread has no open cache transaction and no open build on any alias, however the request ended, and the invalidations of transactions it left open have been completed. The next request in the same thread therefore stores records that inherit nothing from, and runs in transactions independent of, the previous one.",
  ['histories', 'programs'],
  "All sequences of requests in one thread that leave builds and (nested) transactions open on any alias, by returning early, raising or failing to store, with and without the transaction middleware.",
  "No test ends a request with anything open.",
  [DJ+'__init__.py', DJ+'middleware.py', CD+'cache.py'],
  [('close_caches on request_finished', DJ+'__init__.py'), ('CacheWrapper.close', CD+'cache.py'),
   ('TransactionMiddleware flush', DJ+'middleware.py')],
  observe=['reads and stores of the next request'])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
