fn main() {
    println!("vec_dedup_by_key {:?}", vroots::vec_dedup_by_key());
    println!("vec_dedup_by {:?}", vroots::vec_dedup_by());
    println!("vec_dedup_by_mut {:?}", vroots::vec_dedup_by_mut());
    println!("vec_retain_mut {:?}", vroots::vec_retain_mut());
    println!("vec_splice {:?}", vroots::vec_splice());
    println!("vec_resize_with {:?}", vroots::vec_resize_with());
    println!("vec_efw {:?}", vroots::vec_efw());
    println!("vec_dequeue {:?}", vroots::vec_dequeue());
    println!("sl_fill_with {:?}", vroots::sl_fill_with());
    println!("sl_chunk_by {:?}", vroots::sl_chunk_by());
    println!("sl_rchunks {:?}", vroots::sl_rchunks());
    println!("sl_rchunks_mut {:?}", vroots::sl_rchunks_mut());
    println!("sl_search {:?}", vroots::sl_search());
    println!("sl_split_mut {:?}", vroots::sl_split_mut());
    println!("sl_swap_slices {:?}", vroots::sl_swap_slices());
    println!("sl_misc {:?}", vroots::sl_misc());
    println!("sl_first_last_mut {:?}", vroots::sl_first_last_mut());
    println!("it_map_while {:?}", vroots::it_map_while());
    println!("it_minmax_by {:?}", vroots::it_minmax_by());
    println!("it_cmp {:?}", vroots::it_cmp());
    println!("it_back {:?}", vroots::it_back());
    println!("it_peek {:?}", vroots::it_peek());
    println!("it_from_fn {:?}", vroots::it_from_fn());
    println!("it_sorted {:?}", vroots::it_sorted());
    println!("it_unique {:?}", vroots::it_unique());
    println!("it_tuples {:?}", vroots::it_tuples());
    println!("it_tools {:?}", vroots::it_tools());
    println!("par_misc {:?}", vroots::par_misc());
    println!("par_unzip {:?}", vroots::par_unzip());
    println!("opts {:?}", vroots::opts());
    println!("ords {:?}", vroots::ords());
    println!("btree {:?}", vroots::btree());
    println!("sets {:?}", vroots::sets());
    println!("hmaps {:?}", vroots::hmaps());
    println!("strs {:?}", vroots::strs());
    println!("strings {:?}", vroots::strings());
    println!("ints {:?}", vroots::ints());
    println!("cells {:?}", vroots::cells());
    println!("iters {:?}", vroots::iters());
    println!("vecs {:?}", vroots::vecs());
    println!("vecs_a {:?}", vroots::vecs_a());
    println!("vecs_b {:?}", vroots::vecs_b());
    println!("vecs_c {:?}", vroots::vecs_c());
    println!("vecs_d {:?}", vroots::vecs_d());
    println!("vecs_e {:?}", vroots::vecs_e());
    println!("ord_impl {:?}", vroots::ord_impl());
    println!("eqs {:?}", vroots::eqs());
    println!("fmts {:?}", vroots::fmts());
    println!("arrays {:?}", vroots::arrays());
    println!("loops {:?}", vroots::loops());
    println!("closures {:?}", vroots::closures());
    println!("traits {:?}", vroots::traits());
}
