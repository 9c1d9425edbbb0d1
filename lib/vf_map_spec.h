/* nothing to declare: the map's real header is used; see vf_map_impl.h */
