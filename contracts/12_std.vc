@# std functions vstd has no specification for
@@ module shim
    pub assume_specification<T: ?Sized, A: std::alloc::Allocator + Clone>[ <std::sync::Arc<T, A> as Clone>::clone ](a: &std::sync::Arc<T, A>) -> (r: std::sync::Arc<T, A>) ensures r == *a;
    pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
    pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
    pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
    pub assume_specification<T, U>[ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
    pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](a: Option<T>, f: F) -> (r: Option<T>)
        requires a is None ==> f.requires(()) ensures a is Some ==> r == a, a is None ==> f.ensures((), r);
    pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](a: Option<T>, f: F) -> (r: bool)
        requires a is Some ==> f.requires((a->0,)) ensures a is None ==> !r, a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](a: Option<T>, f: F) -> (r: bool)
        requires a is Some ==> f.requires((a->0,)) ensures a is None ==> r, a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](a: Option<T>, d: U, f: F) -> (r: U)
        requires a is Some ==> f.requires((a->0,)) ensures a is None ==> r == d, a is Some ==> f.ensures((a->0,), r);
    pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](a: Option<T>, f: F) -> (r: Option<T>)
        requires a is Some ==> f.requires((&a->0,)) ensures a is None ==> r is None, a is Some ==> (r == a && f.ensures((&a->0,), true) || r is None && f.ensures((&a->0,), false));
    pub assume_specification<T>[ Option::<Option<T>>::flatten ](a: Option<Option<T>>) -> (r: Option<T>) ensures r == (if a is Some { a->0 } else { None });
    pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](a: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
        ensures r == (match a { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
    pub assume_specification<T: Copy>[ Option::<&T>::copied ](a: Option<&T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
    pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(v);
    pub assume_specification<T, E, U>[ Result::<T, E>::and ](a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>) ensures r == (match a { Ok(_) => b, Err(e) => Err(e) });
    pub assume_specification<T, E, F>[ Result::<T, E>::or ](a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>) ensures r == (match a { Ok(x) => Ok(x), Err(_) => b });
    pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](a: Result<T, E>, f: F) -> (r: Result<U, E>)
        requires a is Ok ==> f.requires((a->Ok_0,)) ensures a is Ok ==> f.ensures((a->Ok_0,), r), a is Err ==> r == Err::<U, E>(a->Err_0);
    pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>>[ Result::<T, E>::or_else ](a: Result<T, E>, f: F) -> (r: Result<T, G>)
        requires a is Err ==> f.requires((a->Err_0,)) ensures a is Err ==> f.ensures((a->Err_0,), r), a is Ok ==> r == Ok::<T, G>(a->Ok_0);
    pub assume_specification<T, E, F: FnOnce(T) -> bool>[ Result::<T, E>::is_ok_and ](a: Result<T, E>, f: F) -> (r: bool)
        requires a is Ok ==> f.requires((a->Ok_0,)) ensures a is Err ==> !r, a is Ok ==> f.ensures((a->Ok_0,), r);
    pub assume_specification<T, E, F: FnOnce(E) -> bool>[ Result::<T, E>::is_err_and ](a: Result<T, E>, f: F) -> (r: bool)
        requires a is Err ==> f.requires((a->Err_0,)) ensures a is Ok ==> !r, a is Err ==> f.ensures((a->Err_0,), r);
    pub assume_specification<T, E, U, F: FnOnce(T) -> U>[ Result::<T, E>::map_or ](a: Result<T, E>, d: U, f: F) -> (r: U)
        requires a is Ok ==> f.requires((a->Ok_0,)) ensures a is Err ==> r == d, a is Ok ==> f.ensures((a->Ok_0,), r);
    pub assume_specification<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>[ Result::<T, E>::map_or_else ](a: Result<T, E>, d: D, f: F) -> (r: U)
        requires a is Ok ==> f.requires((a->Ok_0,)), a is Err ==> d.requires((a->Err_0,)) ensures a is Err ==> d.ensures((a->Err_0,), r), a is Ok ==> f.ensures((a->Ok_0,), r);
    pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](a: Result<T, E>, d: T) -> (r: T) ensures r == (match a { Ok(x) => x, Err(_) => d });
    pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](a: Result<T, E>, f: F) -> (r: T)
        requires a is Err ==> f.requires((a->Err_0,)) ensures a is Ok ==> r == a->Ok_0, a is Err ==> f.ensures((a->Err_0,), r);
    pub assume_specification<T>[ std::mem::replace::<T> ](a: &mut T, v: T) -> (r: T) ensures r == *old(a), *final(a) == v;
    pub assume_specification<T>[ std::mem::drop::<T> ](a: T);
    pub assume_specification<T: Ord>[ std::cmp::min::<T> ](a: T, b: T) -> (r: T) ensures r == a || r == b, call_ensures(T::min, (a, b), r);
