//go:build go1.21

// Package verifghost is the specification vocabulary understood by the verifier in /verif/engine.
// It exists only in the overlay the verifier (and the witness tests) load; nothing of it is in /repo.
// Bodies are never executed by the verifier: every function here is interpreted symbolically.
package verifghost

// Any returns an arbitrary value of type T.
func Any[T any](name string) T { panic("ghost") }

// Assume restricts the paths considered; Requires is an assumption when a contract is verified
// and an obligation where the contract is used; Ensures the converse; Assert is an obligation.
func Assume(b bool)                { panic("ghost") }
func Requires(label string, b bool) { panic("ghost") }
func Ensures(label string, b bool) { panic("ghost") }
func Assert(label string, b bool)  { panic("ghost") }

// ContractFor names the function the enclosing function specifies.
func ContractFor(fn interface{}) { panic("ghost") }

// Modifies lists the locations the specified function may change.
func Modifies(ps ...interface{}) { panic("ghost") }

// Havoc sets the location p points to (or the elements of slice p, or the contents of map p) to arbitrary values.
func Havoc(p interface{}) { panic("ghost") }

func Forall[T any](f func(x T) bool) bool           { panic("ghost") }
func Forall2[A, B any](f func(x A, y B) bool) bool  { panic("ghost") }
func Exists[T any](f func(x T) bool) bool           { panic("ghost") }
func Implies(a, b bool) bool                        { panic("ghost") }

// Hashable reports whether x can be a map key.
func Hashable(x interface{}) bool { panic("ghost") }

// LoopInv proposes f(k) as an invariant, k completed iterations, of every loop met until ClearLoopInv.
func LoopInv(name string, f func(k int) bool) { panic("ghost") }
func ClearLoopInv()                           { panic("ghost") }

// LoopSlice is the slice under construction in the loop whose invariant is being evaluated.
func LoopSlice[T any](n int) []T { panic("ghost") }

// LoopVal is the n-th value of type T (parameters first) of the function whose loop is being described.
func LoopVal[T any](n int) T { panic("ghost") }

// LoopHasVal reports whether LoopVal has a value of type T (the argument is not used).
func LoopHasVal[T any](x T) bool { panic("ghost") }

// LoopPhi is the n-th variable of type T that the loop being described changes.
func LoopPhi[T any](n int) T { panic("ghost") }

// LoopHas reports whether the loop being described changes a variable of type T (the argument is not used).
func LoopHas[T any](x T) bool { panic("ghost") }

// LoopOuter is the number of completed iterations of the n-th loop around the one being described (0: the innermost).
func LoopOuter(n int) int { panic("ghost") }

// Seen reports whether the innermost map iteration has produced key k already; SeenCount how many keys.
func Seen[K comparable](k K) bool { panic("ghost") }

// KeyPos is the position at which the last map iteration produces key k; IterCount the number of keys produced so far.
func KeyPos[K comparable](k K) int { panic("ghost") }
func IterCount() int               { panic("ghost") }

// Cover demands that this point is reachable (guards against contradictory assumptions).
func Cover(label string) { panic("ghost") }

// Goroutines started by `go` statements are queued; the specification decides when they run.
func SpawnCount() int  { panic("ghost") }
func RunSpawn(i int)   { panic("ghost") }
func RunSpawned()      { panic("ghost") }

// Catch runs f and reports whether it panicked.
func Catch(f func()) bool { panic("ghost") }

// OnSend/OnRecv/OnBlock intercept operations on a channel (nil: on every channel of the element type of f's parameter).
func OnSend(ch interface{}, f interface{})  { panic("ghost") }
func OnRecv(ch interface{}, f interface{})  { panic("ghost") }
func OnBlock(ch interface{}, f interface{}) { panic("ghost") }
func OnDefault(f interface{})               { panic("ghost") }

// OnLock runs f after the mutex is acquired, OnUnlock before it is released.
func OnLock(m interface{}, f func())   { panic("ghost") }
func OnUnlock(m interface{}, f func()) { panic("ghost") }
func Held(m interface{}) bool          { panic("ghost") }
func NoLocks() bool                    { panic("ghost") }

// Guard: field *p (and the contents of the map it holds) is only accessed while *m is held.
func Guard(name string, p interface{}, m interface{}) { panic("ghost") }

// GuardObj: every access to any field of type of *p (an object type) needs *m.
func GuardType(name string, p interface{}, m interface{}) { panic("ghost") }

// Volatile: f, what other routines may do to *p, runs before every access to *p outside all locks and after
// every acquisition of a first lock. (For atomic operations use Hook("atomic").)
func Volatile(p interface{}, f func()) { panic("ghost") }

// Hook installs f for a named event: sleep, exit, make, reflect.call, ...
func Hook(event string, f interface{}) { panic("ghost") }

// StandIn replaces a library function by a specification function for this harness (an assumed contract of the library).
func StandIn(fn, g interface{}) { panic("ghost") }

// Unfold: calls of fn made directly by the enclosing function execute its body; its recursive calls use the stand-in
// (the induction hypothesis) or the contract.
func Unfold(fn interface{}) { panic("ghost") }

// AtLoopEntry is the value f had when the loop whose invariant is being evaluated was entered.
func AtLoopEntry[T any](f func() T) T { panic("ghost") }

// LoopIter is the number of completed iterations of the innermost loop being executed, -1 outside loops.
func LoopIter() int { panic("ghost") }

// OnFunc gives an unknown function value its meaning.
func OnFunc(fn interface{}, f interface{}) { panic("ghost") }

// Sent/Rcvd: number of values sent on / received from a channel; SentAt the i-th one.
func Sent(ch interface{}) int              { panic("ghost") }
func Rcvd(ch interface{}) int              { panic("ghost") }
func SentAt[T any](ch chan T, i int) T     { panic("ghost") }
func Closed(ch interface{}) bool           { panic("ghost") }

// Stop abandons the current path (it is not considered further).
func Stop() { panic("ghost") }

// UF is an uninterpreted function of its arguments.
func UF[R any](name string, args ...interface{}) R { panic("ghost") }

// Itoa is the decimal text of n.
func Itoa(n int) string { panic("ghost") }

// Same reports identity of two slices' backing arrays.
func SameArray(a, b interface{}) bool { panic("ghost") }

// Identical: same dynamic type and same representation (unlike ==, defined for all values, and reflexive).
func Identical(a, b interface{}) bool { panic("ghost") }

// Pure evaluates a specification expression to one formula instead of case by case.
func Pure(f func() bool) bool { panic("ghost") }

// SameMap reports identity of two maps.
func SameMap(a, b interface{}) bool { panic("ghost") }

// Nth byte of a stream content
func Trace(s string) { panic("ghost") }

// Init runs the package initialisers of the package under specification.
func Init() { panic("ghost") }

// Flag sets an engine option for this harness.
func Flag(name string) { panic("ghost") }

// Streams: every io.Reader/io.Writer is a sequence of bytes with a write end and a read position.
func StreamPos(s interface{}) int               { panic("ghost") }
func StreamEnd(s interface{}) int               { panic("ghost") }
func StreamByte(s interface{}, i int) byte      { panic("ghost") }
func StreamString(s interface{}, i, n int) string { panic("ghost") }

// SetStreamPos moves the read position; StreamExtend appends arbitrary bytes; Truncate cuts the stream at n.
func SetStreamPos(s interface{}, i int) { panic("ghost") }
func StreamExtend(s interface{})        { panic("ghost") }
func Truncate(s interface{}, n int)     { panic("ghost") }
