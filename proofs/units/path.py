"""P01: AutomatonPath over plain and over paired states."""
from unit import Unit

SPEC = r'''
pub open spec fn NUL() -> int { 0xffff_ffff_ffff_ffff }
pub open spec fn EPS() -> int { 0xffff_ffff }
'''
# one set of definitions per instantiation: the sequence of states and labels a representation denotes
DEF = r'''
pub open spec fn states_K(p: P) -> Seq<S> { Seq::new(p._edges.len() + 1, |i: int| if i < p._edges.len() { p._edges[p._edges.len() - 1 - i].1 } else { p._end }) }
pub open spec fn labels_K(p: P) -> Seq<int> { Seq::new(p._edges.len(), |i: int| p._edges[p._edges.len() - 1 - i].0) }
// states and labels without the empty moves: what remains of the first n edges
pub open spec fn vis_K(p: P, n: int) -> (Seq<S>, Seq<int>) decreases n {
    if n <= 0 { (Seq::<S>::empty(), Seq::<int>::empty()) }
    else { let r = vis_K(p, n - 1); if labels_K(p)[n - 1] != EPS() { (r.0.push(states_K(p)[n - 1]), r.1.push(labels_K(p)[n - 1])) } else { r } }
}
'''
LEM = r'''
// the sequences determine the representation
proof fn determined_K(a: P, b: P) requires states_K(a) == states_K(b), labels_K(a) == labels_K(b), ensures a == b
{ assert(a._edges.len() == labels_K(a).len() && b._edges.len() == labels_K(b).len());
  assert(states_K(a)[a._edges.len() as int] == a._end); assert(states_K(b)[b._edges.len() as int] == b._end);
  assert(a._edges =~= b._edges) by { assert forall|i: int| 0 <= i < a._edges.len() implies a._edges[i] == b._edges[i] by { let j = a._edges.len() - 1 - i; assert(states_K(a)[j] == states_K(b)[j]); assert(labels_K(a)[j] == labels_K(b)[j]); assert(a._edges.len() - 1 - j == i); assert(states_K(a)[j] == a._edges[i].1); assert(labels_K(a)[j] == a._edges[i].0); assert(states_K(b)[j] == b._edges[i].1); assert(labels_K(b)[j] == b._edges[i].0); } } }
'''


def inst(k, arg, S, P):
    F = r'pdaaal::AutomatonPath<%s>::' % arg
    sub = lambda t: t.replace('_K', '_' + k)
    nul = 'NUL()' if k == 's' else '(NUL(), NUL())'
    notnul = 'this0._end != %s' % nul if k == 's' else '(this0._end.0 != NUL() || this0._end.1 != NUL())'
    C = [
        dict(name='new_K', fn=F + 'AutomatonPath', nparams=0, ensures='states_K(this1) == seq![%s];; labels_K(this1) == Seq::<int>::empty()' % nul, hints={'end': 'assert(states_K(this_) =~= seq![%s]); assert(labels_K(this_) =~= Seq::<int>::empty());' % nul}),
        dict(name='end_K', fn=F + 'AutomatonPath', nparams=1, sig=r'.*\(state_t\)', params=['end'], requires='end0 != NUL()' if k == 's' else 'end0.0 != NUL() && end0.1 != NUL()',
             ensures='states_K(this1) == seq![end0];; labels_K(this1) == Seq::<int>::empty();; this1._edges.len() == 0 && this1._end == end0', hints={'end': 'assert(states_K(this_) =~= seq![end0]); assert(labels_K(this_) =~= Seq::<int>::empty());'}),
        dict(name='from_K', fn=F + 'AutomatonPath', nparams=2, params=['path', 'stack'], requires='path0.len() == stack0.len() + 1', ensures='states_K(this1) == path0;; labels_K(this1) == stack0',
             loops={1: '''this_._end == path0[path0.len() - 1];; 0 <= stack_it <= stack.len();; path_it == stack_it;; this_._edges.len() == stack.len() - stack_it;;
                forall|i: int| #![trigger this_._edges[i]] 0 <= i < this_._edges.len() ==> this_._edges[i] == (stack0[stack0.len() - 1 - i], path0[stack0.len() - 1 - i])'''},
             hints={'end': 'assert(states_K(this_) =~= path0); assert(labels_K(this_) =~= stack0);'}),
        dict(name='is_null_K', fn=F + 'is_null', ensures='result == (this0._end == %s)' % nul),
        dict(name='empty_K', fn=F + 'empty', ensures='result == (labels_K(this0).len() == 0)'),
        dict(name='size_K', fn=F + 'edges_size', ensures='result == labels_K(this0).len()'),
        dict(name='front_state_K', fn=F + 'front_state', ensures='result == states_K(this0)[0]'),
        dict(name='front_edge_K', fn=F + 'front_edge', requires='labels_K(this0).len() > 0', ensures='result == (states_K(this0)[0], labels_K(this0)[0], states_K(this0)[1])'),
        dict(name='pop_K', fn=F + 'pop', requires='labels_K(this0).len() > 0', ensures='states_K(this1) == states_K(this0).subrange(1, states_K(this0).len() as int);; labels_K(this1) == labels_K(this0).subrange(1, labels_K(this0).len() as int)',
             hints={'end': 'assert(states_K(this_) =~= states_K(this0).subrange(1, states_K(this0).len() as int)); assert(labels_K(this_) =~= labels_K(this0).subrange(1, labels_K(this0).len() as int));'}),
        dict(name='emplace_K', fn=F + 'emplace', params=['from', 'label'], requires=notnul, ensures='states_K(this1) == seq![from0] + states_K(this0);; labels_K(this1) == seq![label0] + labels_K(this0);; this1._end == this0._end;; this1._edges == this0._edges.push((label0, from0))',
             hints={'end': 'assert(states_K(this_) =~= seq![from0] + states_K(this0)); assert(labels_K(this_) =~= seq![label0] + labels_K(this0));'}),
        dict(name='stack_K', fn=F + 'stack', ensures='result == labels_K(this0)', loops={1: '0 <= it <= this0._edges.len();; stack == labels_K(this0).subrange(0, this0._edges.len() - it)'},
             hints={'begin': 'assert(labels_K(this0).subrange(0, 0) =~= Seq::<int>::empty());', 'loop 1 end': 'let n = this0._edges.len() - it; assert(labels_K(this0).subrange(0, n + 1) =~= labels_K(this0).subrange(0, n).push(labels_K(this0)[n]));', 'return': 'assert(labels_K(this0).subrange(0, this0._edges.len() as int) =~= labels_K(this0));'}),
        dict(name='get_K', fn=F + 'get_path_and_stack', ensures='result.0 == vis_K(this0, labels_K(this0).len() as int).0.push(states_K(this0).last());; result.1 == vis_K(this0, labels_K(this0).len() as int).1',
             loops={1: '0 <= it <= this0._edges.len();; result_ == vis_K(this0, this0._edges.len() - it)'}),
        dict(name='remove_eps_K', fn=F + 'remove_epsilon', requires='labels_K(this0).len() > 0 && labels_K(this0)[0] == EPS() ==> states_K(this0)[0] == states_K(this0)[1]',
             ensures='''if labels_K(this0).len() > 0 && labels_K(this0)[0] == EPS() { states_K(this1) == states_K(this0).subrange(1, states_K(this0).len() as int) && labels_K(this1) == labels_K(this0).subrange(1, labels_K(this0).len() as int) } else { this1 == this0 }'''),
        dict(name='eq_K', fn=F + 'operator==', params=['l', 'r'], ensures='result == (states_K(l0) == states_K(r0) && labels_K(l0) == labels_K(r0))', hints={'return': 'if states_K(l0) == states_K(r0) && labels_K(l0) == labels_K(r0) { determined_K(l0, r0); }'}),
        dict(name='ne_K', fn=F + 'operator!=', params=['l', 'r'], ensures='result == !(states_K(l0) == states_K(r0) && labels_K(l0) == labels_K(r0))'),
    ]
    if k == 'p':
        C.append(dict(name='split', fn=F + 'split', requires='this0._end.0 != NUL() && this0._end.1 != NUL()',
            ensures='''labels_s(result.0) == labels_p(this0) && labels_s(result.1) == labels_p(this0);; states_s(result.0) == states_p(this0).map_values(|x: (int, int)| x.0);; states_s(result.1) == states_p(this0).map_values(|x: (int, int)| x.1)''',
            loops={1: '''result_.0._end == this0._end.0;; result_.1._end == this0._end.1;; result_.0._edges.len() == k1;; result_.1._edges.len() == k1;;
                 forall|i: int| #![trigger result_.0._edges[i]] 0 <= i < k1 ==> result_.0._edges[i] == (this0._edges[i].0, this0._edges[i].1.0);; forall|i: int| #![trigger result_.1._edges[i]] 0 <= i < k1 ==> result_.1._edges[i] == (this0._edges[i].0, this0._edges[i].1.1)'''},
            hints={'return': '''assert(labels_s(result_.0) =~= labels_p(this0)); assert(labels_s(result_.1) =~= labels_p(this0)); assert(states_s(result_.0) =~= states_p(this0).map_values(|x: (int, int)| x.0)); assert(states_s(result_.1) =~= states_p(this0).map_values(|x: (int, int)| x.1));'''}))

    def conv(x):
        if isinstance(x, str): return sub(x)
        if isinstance(x, dict): return {kk: (conv(v) if kk not in ('fn', 'sig', 'params') else v) for kk, v in x.items()}
        return x
    return [conv(c) for c in C], sub(DEF).replace('P)', P + ')').replace('P,', P + ',').replace('Seq<S>', 'Seq<%s>' % S).replace('Seq::<S>', 'Seq::<%s>' % S), sub(LEM).replace(': P', ': ' + P)


def unit(ast):
    a, b, c = inst('s', '0', 'int', 'PathS'); d, e, f = inst('p', '-1', '(int, int)', 'PathP')
    return Unit('path', 'path.cpp', a + d, dict(rec_names={r'.*AutomatonPath<0>': 'PathS', r'.*AutomatonPath<-1>': 'PathP'}), SPEC + b + e, c + f, ast)
