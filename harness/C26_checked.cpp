// LV: config=bounds
// LV: use=seq C03_sequence.cpp owner_b|owner_a|int_b|lists|unsigned_mixed|stack_mixed
// LV: use=resize C04_resize.cpp (all|def|no_init|some_dims|inv).*
// LV: use=life C05_lifecycle.cpp array.*|aoa.*|sorted.*
// LV: use=views C06_views.cpp d1.*|d2.*|d3_jik|d3_ijk|d3_kij|iterate_ij|nested|stack_copy|raw
// LV: use=cast C07_reinterpret.cpp equal|strides|join_i|join_ij|split_i|split_ij|split_ji|large_.*
// LV: use=manip C08_manip.cpp .*_owner|.*_int|find.*|one_full
// LV: use=set C08_SortedArray.cpp own_element|iterators|values_full
// LV: use=sort C09_sort.cpp dualSort_owner|isSorted.*|removeDuplicates.*|dualSort_less|dualSort_default|makeSorted_less|dualSort_adversary
// LV: use=rows C10_AoA.cpp owner_[ab]
// LV: use=layout C11_layout.cpp caps.*|hist_int
// LV: use=sets C12_sets.cpp two.*|wide|take_rows|take_sorted
// LV: use=pattern C13_pattern.cpp shapes_i32|shapes_u8|one_i64|two_a
// LV: use=matrix C14_matrix.cpp zero|add.*|one.*|two_a|assimilate.*
// LV: use=values C19_values.cpp .*
// LV: use=bigseq C03_large.cpp large17|large40
// LV: use=bigresize C04_large.cpp large2_ij|large3_jki|large5_.*
// LV: use=biglife C05_large.cpp large_aoa.*|large_aos.*|large_matrix_owner|large_array
// LV: use=bigset C08_large.cpp large18_owner
// LV: use=bigrows C10_large.cpp rows18_owner|long18_owner
// LV: use=bigsets C12_large.cpp rows18_owner|long18_owner|take.*
// LV: use=bigpattern C13_large.cpp rows18|long18
// LV: use=bigmatrix C14_large.cpp rows18_owner|long18_owner|adds.*
// LV: use=typeseq C03_types.cpp types_(d|u8|stack_d)
// LV: use=typelife C05_types.cpp types_(f|owner)
// LV: use=typecast C07_types.cpp (there|back)_(char5|short2|long3)|shorts.*|there_[45].*
// LV: use=typeset C08_types.cpp types_(d|u8|back)
// LV: use=typesort C09_types.cpp types_(i16|f|back)
// LV: use=typerows C10_types.cpp types_(b|d|padded)
// LV: use=typesets C12_types.cpp types_(f|i8)|take_(d|key)
// LV: use=typematrix C14_types.cpp types_(f|u8)|adding_d
// LV: use=widths C25_widths.cpp resize_u8|aoa_u16|limit_.*|matrix_i8|sets_u8
// BOUNDS: the histories of C03-C14, C19 and C25 named in the directives above, with the bounds stated in those harnesses, in a build with LVARRAY_BOUNDS_CHECK and assertions on: no check or assertion may fire that the release build does not need, and every result is as in the release build
// ASSUMES: the preconditions of those harnesses
#include LV_USE
