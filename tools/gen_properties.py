#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the records are easier to edit here)."""
import json, os
V='include/boost/variant/variant.hpp'
D='include/boost/variant/detail/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    r=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: r['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    r['anchors']['observe_at']=observe or ['bounded types supplied by the harness (constructors, destructor, assignment, operators)','public observers of the variant']
    P.append(r)

p('C01','A variant is never empty and its observers always agree',
  'After any sequence of constructions, assignments, conversions, swaps and moves, including ones that ended in an exception thrown at any point by a bounded type or by memory allocation, a variant holds exactly one live, fully constructed object of exactly one of its bounded types. which() is the zero-based index of that type, type() its type_info, empty() is false, and get, visitation and copying all reach that same object. A default-constructed variant holds a value-initialized object of its first bounded type.',
  ['histories','fault_sequences','inputs'],'all bounded type lists (with and without throwing copies/moves, with and without a nothrow-default-constructible type), all operation sequences, all positions at which an operation throws',
  'The tests construct a few variants and throw in a handful of assignments; they do not look at the object after an exception at each possible point, nor continue the history from the state a failure leaves behind.',
  [V,D+'backup_holder.hpp',D+'visitation_impl.hpp',D+'initializer.hpp'],
  [('discriminator updated only after the content exists (indicate_which, indicate_backup_which)',V),('backup and fallback strategies of assignment',V+': backup_assigner, assigner, move_assigner'),('backup holder unwrapping in visitation',D+'visitation_impl.hpp: visitation_impl_invoke')],
  [('which_','index, or -(index+1) while the content is a heap backup',V)])
p('C02','A failed assignment keeps the old value or the documented fallback',
  'When an assignment to a variant throws, the same exception reaches the caller and the source of a copy assignment is unchanged. If no bounded type has a nothrow default constructor, a target that held a different bounded type still holds exactly the value it held before; otherwise it holds either that value or a value-initialized object of the fallback type, which is boost::blank if that is a bounded type and else the first bounded type with a nothrow default constructor. Every later operation on the target (read, copy, move, assign, swap, compare, destroy) then behaves as on any other variant with that value.',
  ['fault_sequences','histories','inputs'],'every throwing point (copy, move, assignment, allocation) inside every kind of assignment, from every source and target state including states left by earlier failures',
  'Existing tests throw on the first copy only and check one or two type lists; they never assign from, swap or move a variant that survived a failure.',
  [V,D+'backup_holder.hpp'],
  [('backup_assigner: copy aside, destroy, construct, restore',V),('assigner/move_assigner::construct_fallback',V),('choice of fallback type',V+': find_fallback_type')])
p('C03','Content objects are created and destroyed exactly once, nothing leaks',
  'Over any history of operations on variants, with or without exceptions, every content object that was constructed is destroyed exactly once, no operation touches an object before its construction or after its destruction, and no two live content objects overlap. When all variants of a program are gone, no content object is alive and no memory obtained by the variants is still allocated. Destroying a variant destroys exactly the object it holds.',
  ['histories','fault_sequences','inputs'],'all operation histories and fault positions for all kinds of bounded types, including ones held in recursive_wrapper and ones that survived a failed assignment',
  'The tests count instances for one class in one or two scenarios and are not run under a leak or lifetime checker.',
  [V,D+'backup_holder.hpp','include/boost/variant/recursive_wrapper.hpp'],
  [('destroy_content / destroyer visitor',V),('temporary handling in assigners',V),('recursive_wrapper destructor','include/boost/variant/recursive_wrapper.hpp')])
p('C04','Copying, assigning and swapping variants have value semantics',
  'A copy of a variant has the same bounded type and an equal content, and from then on neither object is affected by what happens to the other; the source of a copy construction or copy assignment is unchanged. After a = b, or a = x with x a value of a bounded type (also when x is the content of a, or a part of it), a holds the value the right-hand side had before the assignment; if a already held that bounded type, nothing but the assignment operator of that type is used and the content stays the same object, so references to it stay valid (except when wrapped contents are moved from variant to variant, or the last assignment to one of the variants failed). Self-assignment and self-swap change nothing. swap exchanges the two contents exactly, whatever bounded types they have and however they got there.',
  ['histories','inputs'],'all pairs of source and target bounded types and storage states, all aliasing patterns between the operands except assigning to a variant another variant that is stored inside its own content',
  'Tests check some copies and swaps of int/string variants; the combination of type pairs, wrapper kinds and states after failures is not enumerated.',
  [V,'include/boost/variant/recursive_wrapper.hpp',D+'move.hpp'],
  [('copy_into, assign_storage, direct_assigner, variant_assign',V),('swap / swap_with',V),('recursive_wrapper copy and assignment','include/boost/variant/recursive_wrapper.hpp')])
p('C05','Moves transfer the content and leave a valid source',
  'Move construction, move assignment, construction or assignment from an rvalue of a bounded type, rvalue get and swap give the target the value the source had, without ever copying a bounded type whose move construction (and assignment) cannot throw, and they work for move-only bounded types. The source variant keeps holding an object of the same bounded type, in the state the move of that type leaves, and can be read, assigned to and destroyed. An rvalue operand of a failed or successful operation is never destroyed or re-typed by it.',
  ['histories','inputs'],'all bounded types with a move constructor, wrapped or not, in all type pairs of source and target',
  'The move tests use one move-tracking class in a couple of assignments.',
  [V,D+'move.hpp','include/boost/variant/recursive_wrapper.hpp','include/boost/variant/get.hpp'],
  [('move_into, move_storage, direct_mover, move_assigner, convert_move_into',V),('rvalue get','include/boost/variant/get.hpp')])
p('C06','Conversions select the bounded type overload resolution selects',
  'Constructing a variant from, or assigning to it, a value x that is not a variant yields the bounded type that overload resolution selects for x among functions taking each bounded type, holding x converted to it. A variant over other types converts by converting its current content this way, a variant that is itself a bounded type is held as a whole, and a const, non-const or rvalue source, in whatever state, gives the same result; rvalue contents are moved from. A variant is constructible from a type exactly if some bounded type is, and from a foreign variant exactly if it is from each of its types.',
  ['inputs','programs'],'all source types (exact, promoted, user-defined conversions, derived-to-base, string literals, enums, references) against bounded type lists in every order; all source variants. An lvalue source counts as const where the library documents one constructor for both. Bounded types in recursive_wrapper are documented to count as constructible from their own type only, and are covered with that meaning',
  'Tests cover a handful of implicit conversions on fixed type lists.',
  [V,D+'initializer.hpp'],
  [('initializer overload set',D+'initializer.hpp'),('convert_construct, convert_copy_into, convert_move_into',V),('is_variant_constructible_from',V)])
p('C07','get returns the content exactly when it has the asked type',
  'For every variant value and every type U, the pointer forms of get, relaxed_get and strict_get return the address of the content exactly if the content has type U and null otherwise (also for a null operand) and never throw; the reference forms return that object or throw bad_get. The result has the constness and value category of the operand, refers to the content itself and not a copy, sees through recursive_wrapper, and does not change the variant. A type only derived from, convertible to or a base of the content type is not matched.',
  ['inputs','histories'],'all bounded types, asked types and states of the variant, const and non-const, lvalue and rvalue, pointer and reference forms',
  'Tests query a few variants for a few types.',
  ['include/boost/variant/get.hpp',V,D+'element_index.hpp'],
  [('get_visitor','include/boost/variant/get.hpp'),('strict_get static check',D+'element_index.hpp')])
p('C08','polymorphic_get finds the content through its public base classes',
  'polymorphic_get<U> returns a pointer or reference to the content (adjusted to its U subobject) exactly if the content is a U or publicly and unambiguously derived from U and the const-qualification allows it; otherwise the pointer forms return null and the reference forms throw bad_polymorphic_get. This holds for multiple and virtual inheritance, for wrapped contents, for const and non-const variants, and does not change the variant.',
  ['inputs','histories'],'all class hierarchies among the bounded types, all asked classes that are accessible and unambiguous bases where they are bases at all, all variant states; the strict forms for asked classes they accept at compile time',
  'The test has one three-class hierarchy.',
  ['include/boost/variant/polymorphic_get.hpp',D+'element_index.hpp'],
  [('polymorphic_get_visitor','include/boost/variant/polymorphic_get.hpp')])
p('C09','Visiting a variant calls the visitor once, on the content itself',
  'apply_visitor (direct, member, delayed or with a generic callable) calls the visitor exactly once, with the variant\'s actual content, the const-qualification of the variant and, for an rvalue variant, as an rvalue; it returns what the visitor returned (value or reference, the very object) and lets its exception through. Neither the visitor (lvalue visitors keep their state; they are not copied) nor the variant is changed by anything but the visitor itself. A visitor made by visitor_ptr calls its function for its own type and throws bad_visit for every other.',
  ['inputs','programs','histories'],'all visitors, result types, cv and value categories (the content of a const rvalue variant may arrive as a const lvalue or rvalue), variants of any number of bounded types in any state',
  'Tests use a few stateless visitors on two- or three-type variants.',
  ['include/boost/variant/apply_visitor.hpp',D+'apply_visitor_unary.hpp',D+'apply_visitor_delayed.hpp',D+'visitation_impl.hpp','include/boost/variant/visitor_ptr.hpp',V],
  [('invoke_visitor',V),('visitation_impl',D+'visitation_impl.hpp'),('apply_visitor overloads',D+'apply_visitor_unary.hpp'),('visitor_ptr_t','include/boost/variant/visitor_ptr.hpp')])
p('C10','Multi-visitation dispatches on every operand, in argument order',
  'apply_visitor with two or more variants (of the same or different variant types, direct or delayed) calls the visitor exactly once with the actual contents of all operands, the i-th argument being the content of the i-th variant with that operand\'s constness; the result and any exception are passed through. Lvalue operands are passed by reference to the content and are unchanged unless the visitor changes them, rvalue operands have their value delivered once. This holds for every combination of current types.',
  ['inputs','programs'],'the full cartesian product of operand types for 2 to 5 operands, lvalue/const/rvalue operands, void, value and reference results, C++11 and C++14 forms',
  'Tests visit a few combinations of two or three operands and mostly check printed output.',
  [D+'apply_visitor_binary.hpp','include/boost/variant/multivisitors.hpp',D+'multivisitors_cpp11_based.hpp',D+'multivisitors_cpp14_based.hpp',D+'apply_visitor_delayed.hpp'],
  [('apply_visitor_binary_unwrap/invoke',D+'apply_visitor_binary.hpp'),('one_by_one_visitor_and_value_referer',D+'multivisitors_cpp11_based.hpp'),('generic multivisitors',D+'multivisitors_cpp14_based.hpp')])
p('C11','Comparison is equality of type and content, and a lexicographic order',
  'a == b holds exactly if both hold the same bounded type and their contents compare equal with that type\'s operator==; a < b holds exactly if a\'s type precedes b\'s in the bounded type list, or the types are the same and a\'s content is less. !=, >, <= and >= are the corresponding negations and reversals, the contents are compared with only == and <, in operand order, and no comparison changes an operand. Hence == is an equivalence and < a strict weak order whenever the contents\' operators are.',
  ['inputs','histories'],'all pairs and triples of variant values and states, including contents whose operators are unusual (partial order, asymmetric, throwing)',
  'Tests compare a few small variants.',
  [V],[('comparer, equal_comp, less_comp and the relational operators',V)])
p('C12','Hashing is a function of type and content, and agrees with equality',
  'Variants that compare equal have equal hashes however they were built or what failures they went through, whenever the contents\' hash functions agree with their equality; std::hash and boost::hash of a variant are equal and do not change it. The hash depends on both the content and the bounded type: contents with equal hashes in different bounded types, and contents with different hashes in the same type, hash differently apart from rare collisions.',
  ['inputs','histories'],'all variant values and histories; statistical over content values and types',
  'Tests hash a handful of values.',
  [D+'hash_variant.hpp',D+'std_hash.hpp'],[('variant_hasher and hash_value',D+'hash_variant.hpp'),('std::hash specialization',D+'std_hash.hpp')])
p('C13','Streaming a variant writes exactly what streaming its content writes',
  'out << v writes to out the same characters, and leaves the same formatting state and error flags, as out << content would, calling the content\'s output operator exactly once; it returns out, leaves v unchanged and lets exceptions through. This holds for narrow and wide streams, any manipulators and any width, for wrapped and nested variants; boost::blank writes nothing that depends on other state.',
  ['inputs'],'all contents, stream states, manipulators and character types',
  'Tests stream a few values to narrow streams with default formatting.',
  [D+'variant_io.hpp'],[('printer visitor',D+'variant_io.hpp')])
p('C14','Recursive variants behave as plain value trees',
  'recursive_wrapper<T> and make_recursive_variant are transparent: a wrapped bounded type is constructed, visited, got, compared, streamed, copied and assigned as if it were held directly, a wrapper always holds a T, and its default-constructed T is value-initialized. Trees built from recursive variants of any shape and depth are copied deeply, compare by structure, survive self-assignment, swap and moves of subtrees, and free all their nodes. Replacing the recursion placeholder reaches every nested template argument (containers, pairs, pointers, function types) of the declared bounded types.',
  ['inputs','histories','fault_sequences'],'all tree shapes and edit histories, with faults at any node copy or allocation',
  'Tests build three or four small fixed trees.',
  ['include/boost/variant/recursive_wrapper.hpp','include/boost/variant/recursive_variant.hpp',D+'enable_recursive.hpp',D+'substitute.hpp'],
  [('recursive_wrapper special members and assign','include/boost/variant/recursive_wrapper.hpp'),('substitute',D+'substitute.hpp'),('quoted_enable_recursive',D+'enable_recursive.hpp')])
p('C15','Content lives inside the variant, aligned, without hidden allocation',
  'Except for bounded types held in recursive_wrapper and for a value kept after a failed assignment, the content object lies entirely within the variant object and at an address aligned for its type, for every bounded type including over-aligned and odd-sized ones, wherever the variant is placed. Constructing, copying, moving, assigning, swapping, visiting and comparing such variants performs no dynamic allocation that the bounded types do not perform themselves if the bounded types are nothrow copy constructible or any of them is nothrow default constructible. The variant never writes outside its own object, and its size is at most that of its largest bounded type rounded up to the strictest alignment (at least that of a pointer where no fallback type exists), plus room for its index.',
  ['inputs','histories','configurations'],'all type lists by size and alignment, all placements, all histories without failure',
  'Tests do not look at addresses or allocations.',
  [V,D+'cast_storage.hpp',D+'config.hpp'],[('make_storage: max size and alignment',V),('which_t selection',V),('strategy choice of assign_impl',V)])
p('C16','noexcept declarations are true and other exceptions reach the caller',
  'Every operation that is declared noexcept for a given variant type (as reported by noexcept or the type traits) never fails for any of its contents, and every exception of a bounded type, visitor, allocation, comparison, hash or stream operation reaches the caller unchanged: it is never swallowed, replaced or turned into program termination. In particular move construction, move assignment and default construction are reported noexcept exactly if they cannot throw for any bounded type, so containers of variants keep their strong guarantee and move where they may. bad_get, bad_visit and bad_polymorphic_get are std::exceptions with a non-empty message.',
  ['inputs','fault_sequences','programs'],'all type lists mixing throwing and non-throwing members, all throwing positions',
  'Tests check a few trait values, and never throw from inside a noexcept-declared operation.',
  [V,'include/boost/variant/recursive_wrapper.hpp','include/boost/variant/get.hpp','include/boost/variant/bad_visit.hpp','include/boost/variant/polymorphic_get.hpp'],
  [('variant_move_noexcept_constructible/assignable',V),('BOOST_NOEXCEPT_IF on structors and modifiers',V)])
p('C17','Const access and distinct variants are safe from concurrent threads',
  'Any number of threads may read the same variant at once (which, type, get, visitation, comparison, hashing, streaming, copying from it), and different threads may do anything to different variants, without data races and with the results of sequential execution. No variant operation depends on shared mutable state outside its operands.',
  ['schedules','histories'],'all interleavings of const operations on shared variants and of arbitrary operations on unshared ones',
  'No test uses threads.',
  [V,D+'visitation_impl.hpp',D+'hash_variant.hpp'],[('const operations do not write',V)])
p('C18','Variants of references refer to, and never copy, the original object',
  'A variant with a reference bounded type holds a reference to the object it was constructed from: get, visitation, streaming, comparison and hashing act on that very object, changes through the variant are visible in it and vice versa, and the object is neither copied nor destroyed with the variant. Copies refer to the same object, and converting such a variant to one over plain types copies the referred-to value.',
  ['inputs','histories'],'all referred types (const and non-const, classes, arrays of fundamental types excluded), all constructions, copies and conversions (a variant with a reference bounded type is not assignable or swappable)',
  'One small test with int&.',
  [V,'include/boost/variant/get.hpp',D+'initializer.hpp'],[('reference_content handling in visitors',V)])
p('C19','No operation has undefined behaviour or reads indeterminate memory',
  'For programs that respect the bounded types\' requirements, no operation of the library accesses memory out of bounds, out of lifetime, misaligned or uninitialized, dereferences or binds a null reference, or executes any other undefined behaviour, at any optimization level. Hence no result depends on indeterminate values, and repeating a history gives the same observations.',
  ['histories','inputs','configurations'],'all operation histories and compilers/optimization levels',
  'The tests run unoptimized and without sanitizers, so they cannot see undefined behaviour that happens to work.',
  [V,D+'visitation_impl.hpp',D+'cast_storage.hpp',D+'forced_return.hpp','include/boost/variant/recursive_wrapper.hpp'],
  [('typed access to raw storage',D+'cast_storage.hpp'),('unreachable branches of visitation',D+'forced_return.hpp')])
p('C20','Every position in a type list of any length behaves the same',
  'A variant over n bounded types, whether given directly or as a type sequence, and however long, treats each of them alike: the i-th type can be constructed, converted to, copied, moved, assigned, swapped, visited, got, compared, hashed, streamed and destroyed, with which() equal to i. In particular nothing changes at the boundaries of internal limits (the unrolling limit, the list size limit, the range of a small index).',
  ['inputs','configurations'],'all list lengths from 1 upwards (explored past 128), all positions and pairs of positions',
  'Tests use at most a few types, one has 20 or so.',
  [D+'visitation_impl.hpp',D+'make_variant_list.hpp',D+'over_sequence.hpp',D+'initializer.hpp',V],
  [('unrolled switch with continuation',D+'visitation_impl.hpp'),('which_t',V),('make_variant_over',V)])
p('C21','Behaviour is the same in every supported configuration',
  'The same program gives the same observable results (values, selected types, exceptions, visitor calls, lifetimes) under every supported C++ standard, compiler and optimization level, with RTTI on or off, with exceptions on or (where nothing throws) off, with minimized size, with any visitation unrolling limit, and with assertions on or off. No configuration macro changes what an operation does, only what it costs.',
  ['configurations','histories'],'the cross product of standards, compilers and configuration macros, over random histories',
  'The tests run each configuration on their own and only with one compiler and default macros.',
  [V,D+'config.hpp',D+'apply_visitor_binary.hpp','include/boost/variant/multivisitors.hpp','include/boost/variant/variant_fwd.hpp'],
  [('configuration switches',D+'config.hpp'),('C++11/C++14 visitation flavours',D+'apply_visitor_unary.hpp')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for r in P:
        assert len(r['title'])<=80,(r['id'],len(r['title']))
        f.write(json.dumps(r)+'\n')
print(len(P))
