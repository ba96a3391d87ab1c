SV='include/linalg/sparse_vector.hpp'; SO='include/util/sorted.hpp'
M=[
('R04','bug',SV,"""				if (val != TV(0)) {
					tmp.emplace_back(key_type(i1->ind, val));
				}
				++i1;
				++i2;
			} else if ((i1->ind) < (i2->ind)) {
				tmp.emplace_back(*i1++);""","""				tmp.emplace_back(key_type(i1->ind, val));
				++i1;
				++i2;
			} else if ((i1->ind) < (i2->ind)) {
				tmp.emplace_back(*i1++);"""),
('R04','bug',SV,"while (i2 != x.nzend() && (i2->ind < lastind)) {","while (i2 != x.nzend()) {"),
('R04','bug',SV,"while (i1 != indval.cend() && i2 != x.nzend() && (i2->ind < lastind)) {","while (i1 != indval.cend() && i2 != x.nzend() && !(lastind < i2->ind)) {"),
('R04','bug',SV,"			key_type(firstind, TV(0))\n","			key_type(firstind+1, TV(0))\n"),
('R04','bug',SV,"if (a == TV(0)) {clear_zeros(); return;}","if (a == TV(0)) {clear(); return;}"),
('R04','bug',SV,"if (i2 == x.nzend()) { return; } // nothing to do","if (indval.empty() || i2 == x.nzend()) { return; } // nothing to do",1),
('R04','bug',SV,"		tmp.clear();\n		while (i1 != indval.cend() && i2 != x.nzend()) {","		while (i1 != indval.cend() && i2 != x.nzend()) {"),
('R04','bug',SV,"if (it1 != nzend() || it2 != other.nzend()) { return false;}","if (it1 != nzend() && it2 != other.nzend()) { return false;}"),
('R04','bug',SV,"if (it1 != nzend() || it2 != other.nzend()) { return false;}","if (it2 != other.nzend()) { return false;}"),
('R04','bug',SV,"""				++selfit;
				++it;
				++ct;""","""				++selfit;
				++it;"""),
('R04','bug',SV,"if (it->ind < i1) {","if (it->ind <= i1) {"),
('R04','bug',SV,"indval.erase(lower_bound(i0), lower_bound(i1));","indval.erase(lower_bound(i0), upper_bound(i1));"),
('R04','bug',SV,"				pi->ind = j;\n				sort();","				pi->ind = j;"),
('R04','bug',SV,"(nzend()-1)->ind > m)","(nzend()-1)->ind >= m)"),
('R04','bug',SV,"pj->val = (c * vi) + (d * vj);","pj->val = (c * pi->val) + (d * vj);"),
('R04','bug',SV,"					indval.erase(pj);\n					pi = lower_bound(i);","					indval.erase(pj);"),
('R04','same',SO,"!(*ia < maxval)) {break;}","(*ia > maxval)) {break;}"),
('R04','bug',SO,"        if (*ip == i) {\n            // we do not append i to the complement\n            i++;","        if (*ip == i) {\n            // we do not append i to the complement\n"),
# same behaviour
('R04','same',SV,"""		while (i1 != indval.cend()) {
			tmp.emplace_back(*i1++);
			// ++i1;
		}""","""		tmp.insert(tmp.end(), i1, indval.cend());"""),
('R04','same',SV,"""			} else if ((i1->ind) < (i2->ind)) {
				tmp.emplace_back(*i1++);
				// ++i1;
			} else {
				tmp.emplace_back(key_type(i2->ind, a * (i2->val)));
				++i2;
			}""","""			} else if ((i2->ind) < (i1->ind)) {
				tmp.emplace_back(key_type(i2->ind, a * (i2->val)));
				++i2;
			} else {
				tmp.push_back(*i1);
				++i1;
			}"""),
('R04','same',SV,"std::swap(indval, tmp);","indval.swap(tmp);"),
('R04','same',SV,"std::swap(indval, tmp);","indval = tmp;"),
('R04','same',SV,"""				TV val = (a * ((*i2).val)) + (*i1).val;
				// std::cout << "a: " << a << " x: " << ((*i2).val)) << " y: " << (*i1).val << std::endl;
				if (val != TV(0)) {
					tmp.emplace_back(key_type(i1->ind, val));
				}
				++i1;
				++i2;
			} else if ((i1->ind) < (i2->ind)) {
				tmp.emplace_back(*i1++);""","""				TV val((*i1).val);
				val += a * ((*i2).val);
				if (!(val == TV(0))) {
					tmp.emplace_back(i2->ind, val);
				}
				i1++; i2++;
			} else if ((i1->ind) < (i2->ind)) {
				tmp.emplace_back(*i1++);"""),
('R04','same',SV,"""		while (it1 != nzend() && it2 != other.nzend()) {
			if (*it1++ != *it2++) {return false;}
		}
		if (it1 != nzend() || it2 != other.nzend()) { return false;}
		return true;""","""		while (true) {
			if (it1 == nzend()) { return it2 == other.nzend(); }
			if (it2 == other.nzend()) { return false; }
			if (*it1 != *it2) {return false;}
			++it1; ++it2;
		}
		return true;"""),
('R04','same',SV,"""		while (it1 != nzend() && it2 != other.nzend()) {
			if (*it1++ != *it2++) {return false;}
		}
		if (it1 != nzend() || it2 != other.nzend()) { return false;}
		return true;""","""		for (; it1 != nzend() && it2 != other.nzend(); ++it1, ++it2) {
			if (!(*it1 == *it2)) return false;
		}
		return it1 == nzend() && it2 == other.nzend();"""),
('R04','same',SV,"""		for (auto iv : indval) {
			if (iv.val != TV(0)) {
				indval2.emplace_back(iv);
			}
		}
		indval = indval2;""","""		for (size_t k = 0; k < indval.size(); ++k) {
			if (indval[k].val == TV(0)) continue;
			indval2.push_back(indval[k]);
		}
		indval = std::move(indval2);"""),
('R04','same',SV,"""		for (auto iv : indval) {
			if (iv.val != TV(0)) {
				indval2.emplace_back(iv);
			}
		}
		indval = indval2;""","""		std::copy_if(indval.begin(), indval.end(), std::back_inserter(indval2), [](const key_type& k){ return k.val != TV(0); });
		indval.swap(indval2);"""),
('R04','same',SV,"""		while( it != nzend() ) {
			if (it->ind < i1) {
				newindval.emplace_back(key_type(it->ind - i0, it->val));
			} else {
				break;
			}
			it++;
		}""","""		const auto last = lower_bound(i1);
		for (; it != last; ++it) {
			newindval.emplace_back(key_type(it->ind - i0, it->val));
		}"""),
('R04','same',SO,"""        if (*ia < *ib) {
            ++ia;
        } else if (*ib < *ia) {
            ++ib;
        } else {
            // *ia == *ib
            return true;
        }""","""        if (*ia == *ib) return true;
        if (*ia < *ib) ++ia; else ++ib;"""),
('R04','same',SV,"""				if (pj->val ==  0) {
					indval.erase(pj);
					pi = lower_bound(i);
				}""","""				if (pj->val ==  0) {
					indval.erase(lower_bound(j));
					pi = lower_bound(i);
				}"""),
('R04','same',SO,"""    while (ip != ind.end()) {
        if (*ip == i) {
            // we do not append i to the complement
            i++;
            ip++;
        } else {
            // we append i to the complement
            cind.emplace_back(i++);
        }
    }""","""    for (; ip != ind.end(); i++) {
        if (*ip != i) {
            cind.push_back(i);
        } else {
            ++ip;
        }
    }"""),
]
