SV='include/linalg/sparse_vector.hpp'
M=[('R04','bug',SV,"while (it_r_inds != r_inds.end() && *it_r_inds <= iv->ind)","while (*it_r_inds <= iv->ind && it_r_inds != r_inds.end())"),
('R04','bug',SV,"while (ri != r_inds.end() && *ri <= iv->ind)","while (*ri <= iv->ind && ri != r_inds.end())")]
