//@ verus
// ---------------------------------------------------------------- trusted: Option
pub assume_specification<T, U, F> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    where F: FnOnce(T) -> U + std::marker::Destruct, U: std::marker::Destruct
    requires o is Some ==> call_requires(f, (o->Some_0,)),
    ensures match o { Some(x) => call_ensures(f, (x,), r), None => r == d };
