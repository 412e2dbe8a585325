From b6c3621638a62042b1f2f6c29d822f2fdac73c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 001/155] fix: fast mser v2 reports the gray levels of bright
 regions in the source image

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index f25c1c6..ad12c7b 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1876,7 +1876,7 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			mser_block_info_pointer[3]->block_self_pixel_size = cur_mser.m_points[3].m_x;
 		}
 
-		cur_mser.m_gray_level = cur_region->m_gray_level;
+		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;
 		cur_region->m_mser_index = i;
 
 		mser_block_info_pointer[0]->left = -1;
-- 
2.43.0


From e5f83a49f5866b6773f2e9fd810f5b5a8e5b6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 002/155] fix: fast mser v2 joins the rectangles of the
 partitions on both sides

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index ad12c7b..a5244a9 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1986,13 +1986,17 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			} else {
 				if (mser_block_info_pointer[k]->left < left) {
 					left = mser_block_info_pointer[k]->left;
-				} else if (mser_block_info_pointer[k]->right > right) {
+				}
+
+				if (mser_block_info_pointer[k]->right > right) {
 					right = mser_block_info_pointer[k]->right;
 				}
 
 				if (mser_block_info_pointer[k]->top < top) {
 					top = mser_block_info_pointer[k]->top;
-				} else if (mser_block_info_pointer[k]->bottom > bottom) {
+				}
+
+				if (mser_block_info_pointer[k]->bottom > bottom) {
 					bottom = mser_block_info_pointer[k]->bottom;
 				}
 			}
-- 
2.43.0


From d243bebfbe347ecb938e6c286cdf3a767aedc055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 003/155] fix: fast mser v2 sizes its heaps for bright regions
 when dark ones are not extracted

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index a5244a9..ba04f15 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -429,7 +429,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < pinfo.m_width; ++col) {
-					level_size[*img_data]++;
+					level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From f43674cc9bb6c4fef623b37ab1b502e58acd01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 004/155] fix: ms mser sizes its heaps for bright regions when
 dark ones are not extracted

---
 basicimg/src/img_ms_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 9d46482..c861f80 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -174,7 +174,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < width; ++col) {
-					m_level_size[*img_data]++;
+					m_level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From cbae86c58e4c3b57b044f1b0208a698f43135821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 005/155] fix: fast mser v2 extracts the pixels of every
 partition, not of the first four

---
 basicimg/src/img_fast_mser_v2.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index ba04f15..525beee 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1645,8 +1645,13 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
-	u32 partition_start_indexes[4] = {0, 1, 2, 3};
-	u32 partition_stop_indexes[4] = {1, 2, 3, 4};
+	u32 partition_start_indexes[4];
+	u32 partition_stop_indexes[4];
+
+	for (u32 i = 0; i < 4; ++i) {
+		partition_start_indexes[i] = (u32)m_pinfo.size() * i / 4;
+		partition_stop_indexes[i] = (u32)m_pinfo.size() * (i + 1) / 4;
+	}
 
 	i32** region_heap = (i32**)malloc(sizeof(i32*) * (i32)m_pinfo.size());
 	i32 total_region_size = 0;
-- 
2.43.0


From c45f8d6506f6b787477d73255152f40f38a5f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 006/155] fix: the component stacks of the fast msers hold all
 256 gray levels and the sentinel

---
 basicimg/include/img_fast_mser_v1.h | 2 +-
 basicimg/include/img_fast_mser_v2.h | 2 +-
 basicimg/include/img_ms_mser.h      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 213498e..b3227ae 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -107,7 +107,7 @@ namespace basicimg {
 			mt_block_memory<mser_region> m_mser_regions;
 
 			i16** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];	//256 gray levels and the sentinel
 			i16** m_heap_start[257];
 
 			mser_region** m_boundary_regions[4];	//left, right, top, bottom
diff --git a/basicimg/include/img_fast_mser_v2.h b/basicimg/include/img_fast_mser_v2.h
index 1798e77..df96762 100644
--- a/basicimg/include/img_fast_mser_v2.h
+++ b/basicimg/include/img_fast_mser_v2.h
@@ -80,7 +80,7 @@ namespace basicimg {
 			i32 m_er_number;
 			mt_block_memory<mser_region> m_mser_regions;
 			u32** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];	//256 gray levels and the sentinel
 			u32** m_heap_start[257];
 
 			i32 m_dir[9];
diff --git a/basicimg/include/img_ms_mser.h b/basicimg/include/img_ms_mser.h
index 93ed626..079772d 100644
--- a/basicimg/include/img_ms_mser.h
+++ b/basicimg/include/img_ms_mser.h
@@ -100,7 +100,7 @@ namespace basicimg {
 		u32 m_heap_size;
 		u32** m_heap_start[257];
 
-		connected_comp m_comp[256];
+		connected_comp m_comp[257];	//256 gray levels and the sentinel
 
 		mser_region** m_gray_order_regions;
 		u32 m_gray_order_regions_memory_size;
-- 
2.43.0


From 0e6cd776af7ba10b4072deedd050c3a5e8ad4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 007/155] fix: fast mser v1 extracts the pixels of the last top
 regions too

---
 basicimg/src/img_fast_mser_v1.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 03dda39..401b852 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -3091,13 +3091,9 @@ void img_fast_mser_v1::extract_pixel_parallel_k_fast(img_multi_msers& msers, u8
 		cur_size += cur_region->m_size;
 		parallel_stop_indexes[index] = i;
 
-		if (cur_size > parallel_size) {
+		// the last thread takes all the remaining regions
+		if (cur_size > parallel_size && index < m_parallel_thread_number - 1) {
 			++index;
-
-			if (index == m_parallel_thread_number) {
-				break;
-			}
-
 			memory_offsets[index] = cur_size;			
 			parallel_size += quarter_size;
 		}
-- 
2.43.0


From 417efcbb903081e8a429556979b74edc49940a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 008/155] fix: fast mser v1 with one thread returns the points
 and rectangles of its regions

---
 basicimg/src/img_fast_mser_v1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 401b852..d437651 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2969,12 +2969,12 @@ void img_fast_mser_v1::extract_pixel_parallel_1_fast(img_multi_msers& msers, u8
 		cur_region = m_gray_order_regions[i];
 
 		cur_mser.m_size = cur_region->m_size;
+		cur_mser.m_rect.set_rect(cur_region->m_left, cur_region->m_top, i32(cur_region->m_right - cur_region->m_left + 1), i32(cur_region->m_bottom - cur_region->m_top + 1));
 		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;
 		cur_mser.m_memory_type = img_mser::Memory_Type_Range;
 		
-		i32* pt_range = (i32*)&cur_mser.m_points;
-		pt_range[0] = m_linked_points[cur_region->m_head].m_ref;
-		pt_range[1] = m_linked_points[cur_region->m_tail].m_ref;
+		// store start memory index
+		cur_mser.m_points = memory + m_linked_points[cur_region->m_head].m_ref;
 	}
 }
 
-- 
2.43.0


From 2d486aea70a8b2ddafde94850cc65c4b3cceebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 009/155] fix: ms mser reads windows of larger images row by
 row

---
 basicimg/src/img_ms_mser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index c861f80..14d9b6e 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -180,6 +180,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 				}
 
 				*points++ = m_boundary_pixel;
+				img_data += img.step()[0] - width;
 				extended_image_data += 2;
 			}			
 		}
-- 
2.43.0


From 15180df1d8c4dcf3172ba44bb4811360db8da08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 010/155] fix: fast msers can change their thread number
 between extractions

---
 basicimg/src/img_fast_mser_v1.cpp | 6 ++++++
 basicimg/src/img_fast_mser_v2.cpp | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index d437651..e5223fa 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -77,6 +77,12 @@ void img_fast_mser_v1::clear_memory_cache() {
 }
 
 void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask) {
+	//the partitions own block memories, which resizing the vector would copy
+	if (m_pinfo.size() != (size_t)m_parallel_thread_number) {
+		vector<parallel_info> temp(m_parallel_thread_number);
+		m_pinfo.swap(temp);
+	}
+
 	u32 h_size = img.size()[0] * img.size()[1] + 257 * m_parallel_thread_number;
 
 	if (h_size != m_heap_size) {
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 525beee..dcda76c 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -68,7 +68,11 @@ void img_fast_mser_v2::allocate_memory(const mt_mat& img, const img_mask_info<u8
 		basiclog_assert2(sys_false);
 	}
 
-	m_pinfo.resize(m_parallel_thread_number);
+	//the partitions own block memories, which resizing the vector would copy
+	if (m_pinfo.size() != (size_t)m_parallel_thread_number) {
+		vector<parallel_info> temp(m_parallel_thread_number);
+		m_pinfo.swap(temp);
+	}
 	m_partition_indexes.resize((horizontal_partition_number + vertical_partition_number) * 2);
 
 	u32* horizontal_paratition_indexes = &m_partition_indexes[0];
-- 
2.43.0


From 89f0e4f06e4dc302741522604f8f684c08726721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 011/155] fix: opencv mser sets its row shift; original mser
 drops the regions of the last extraction

---
 basicimg/src/img_opencv_mser.cpp | 1 +
 basicimg/src/img_origin_mser.cpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_opencv_mser.cpp b/basicimg/src/img_opencv_mser.cpp
index 230f582..be9e90f 100644
--- a/basicimg/src/img_opencv_mser.cpp
+++ b/basicimg/src/img_opencv_mser.cpp
@@ -379,6 +379,7 @@ void img_opencv_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>
 	}
 
 	m_step_mask = width - 1;
+	m_step_gap = stepgap;
 
 	// to speedup the process, make the width to be 2^N
 	m_temp_image.create(src.size()[0] + 2, width, mt_I16C1);
diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 43e41da..7769045 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -595,10 +595,10 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 		m_stack_helper_size = area;
 		basicsys_delete_array(m_stack_helper);
 		m_stack_helper = new i16*[area];
-	} else {
-		resetPreInfo();
 	}
 
+	resetPreInfo();
+
 	m_stack_top_index = -1;
 
 	for (i32 i = 1; i < m_window_size; ++i) {
-- 
2.43.0


From 7cc8088a68e1f86caa17e68395356f8ec3a9a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 012/155] fix: opencv3 mser sizes its heaps for bright regions
 when dark ones are not extracted

---
 basicimg/src/img_opencv3_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index d82d04d..67d0ff4 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -388,7 +388,7 @@ void img_opencv3_mser::preprocess( const mt_mat& img, int* level_size, u8 mask)
 			for( j = 1; j < cols-1; j++ )
 			{
 				int val = imgptr[j];
-				level_size[val]++;
+				level_size[val ^ mask]++;
 				pptr[j].val = 0;
 			}
 		}
-- 
2.43.0


From 8138278107cadbdc5ccfb5123a908d6162212971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 013/155] fix: opencv3 mser does not write into the image of an
 earlier extraction

---
 basicimg/src/img_opencv3_mser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index 67d0ff4..0f98ac7 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -218,8 +218,7 @@ void img_opencv3_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8
 	mt_mat temp = src;
 
 	if (!temp.is_continuous()) {
-		m_tempsrc.copy_from(temp);
-		temp = m_tempsrc;
+		m_tempsrc = temp.clone();	//m_tempsrc can share the memory of the last image
 	} else {
 		m_tempsrc = temp;
 	}
-- 
2.43.0


From d8454ae532f2b3cd96c7f684309480cef5ff2f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 014/155] fix: opencv3 mser reports the gray levels of its
 regions

---
 basicimg/include/img_opencv3_mser.h | 1 +
 basicimg/src/img_opencv3_mser.cpp   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/basicimg/include/img_opencv3_mser.h b/basicimg/include/img_opencv3_mser.h
index 886fdd4..f91d297 100644
--- a/basicimg/include/img_opencv3_mser.h
+++ b/basicimg/include/img_opencv3_mser.h
@@ -51,6 +51,7 @@ namespace basicimg  {
 			u32* m_total_pixel_number;
 			Pixel* pix0;
 			int step;
+			u8 m_gray_mask;
 		};
 
 		struct CompHistory
diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index 0f98ac7..9c94f4d 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -85,6 +85,7 @@ void img_opencv3_mser::CompHistory::checkAndCapture(WParams& wp )
 	img_mser& region = wp.msers->back();
 	*wp.m_total_pixel_number += (u32)size;
 	region.m_size = size;
+	region.m_gray_level = (u8)val ^ wp.m_gray_mask;
 
 	region.m_points = new mt_point[region.m_size];
 	region.m_memory_type = img_mser::Memory_Type_Self;
@@ -261,6 +262,7 @@ void img_opencv3_mser::extract_pixel(img_multi_msers& msers, u8 gray_mask) {
 	wp.msers = &msers.m_msers[(gray_mask == 0) ? 0 : 1];
 	wp.pix0 = ptr0;
 	wp.step = step;
+	wp.m_gray_mask = gray_mask;
 	m_channel_total_pixel_number = 0;
 	wp.m_total_pixel_number = &m_channel_total_pixel_number;
 
-- 
2.43.0


From dc71ea69f1d4097e1e0f01596ad451bdabb472c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 015/155] fix: opencv mser returns dark regions in the first
 channel, with the gray levels of the regions

---
 basicimg/src/img_opencv_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_opencv_mser.cpp b/basicimg/src/img_opencv_mser.cpp
index be9e90f..4de3082 100644
--- a/basicimg/src/img_opencv_mser.cpp
+++ b/basicimg/src/img_opencv_mser.cpp
@@ -177,7 +177,7 @@ void img_opencv_mser::toMSERInfo(img_mser& mserInfo, ConnectedComp* comp, u8 gra
 	}
 
 	mserInfo.m_rect.set_rect(mt_point(colMin, rowMin), mt_point(colMax, rowMax));
-	mserInfo.m_gray_level = (gray_mask == 0) ? (comp->mGrayLevel & 0x00ff) : (0xff - (comp->mGrayLevel & 0x00ff));
+	mserInfo.m_gray_level = (gray_mask == 0) ? (comp->mHistory->mGrayLevel & 0x00ff) : (0xff - (comp->mHistory->mGrayLevel & 0x00ff));
 }
 
 void img_opencv_mser::preProcessImage(const mt_mat& src, u8 gray_mask) {
@@ -197,7 +197,7 @@ void img_opencv_mser::preProcessImage(const mt_mat& src, u8 gray_mask) {
 	imgptr += cpt_1;
 	u8* srcptr = (u8*)src.data();
 	
-	if (gray_mask) {
+	if (gray_mask == 0) {
 		for (int row = 0; row < src.size()[0]; ++row) {
 			*imgptr++ = -1;
 			for (int col = 0; col < src.size()[1]; ++col) {
-- 
2.43.0


From 9234cca27dc500d120b98e15580446678a127ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 016/155] fix: original mser with a masked value reads windows
 of larger images row by row

---
 basicimg/src/img_origin_mser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 7769045..ec3c782 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -557,6 +557,8 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 						colMin = min(colMin, col);
 					}
 				}
+
+				imageData += image.step()[0] - image.size()[1];
 			}
 
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
-- 
2.43.0


From 036a95ad8ac9ebdf7514d23329a78a7b21e62034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 017/155] fix: linear linked mser leaves out masked values of
 dark regions too

---
 basicimg/src/img_linked_linear_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index a6abff5..32d204b 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -391,8 +391,8 @@ void img_linked_linear_mser::pre_process_image(const mt_mat& src, u8 gray_mask,
 						srcValue = *srcptr;
 					}
 
-					level_size[*srcptr]++;
-					*imgptr = *srcptr;
+					level_size[srcValue]++;
+					*imgptr = srcValue;
 
 					imgptr++;
 					srcptr++;
-- 
2.43.0


From 36837ae158b12021471243de841a079e843f53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 018/155] fix: copies of mser results own their pixels

---
 basicimg/src/img_mser_base.cpp | 41 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f9441d2..9efe988 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -19,19 +19,26 @@ img_mser::~img_mser() {
 }
 
 img_mser::img_mser(const img_mser& other) {
+	m_memory_type = Memory_Type_Self;
 	m_points = NULL;
 	*this = other;
 }
 
 void img_mser::operator=(const img_mser& other) {
+	if (this == &other) {
+		return;
+	}
+
+	if (m_memory_type == Memory_Type_Self) {
+		basicsys_delete_array(m_points);
+	}
+
 	m_gray_level = other.m_gray_level;
 	m_memory_type = other.m_memory_type;
 	m_size = other.m_size;
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		basicsys_delete_array(m_points);
-
 		if (m_size > 0) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
@@ -51,23 +58,27 @@ img_multi_msers::img_multi_msers(const img_multi_msers& other) {
 }
 
 void img_multi_msers::operator=(const img_multi_msers& other) {
-	m_msers[0] = other.m_msers[0];
-	m_msers[1] = other.m_msers[1];
+	if (this == &other) {
+		return;
+	}
 
-	m_memory_size[0] = other.m_memory_size[0];
-	m_memory_size[1] = other.m_memory_size[1];
+	for (i32 i = 0; i < 2; ++i) {
+		m_msers[i] = other.m_msers[i];
+		m_memory_size[i] = other.m_memory_size[i];
 
-	basicsys_delete_array(m_memory[0]);
-	basicsys_delete_array(m_memory[1]);
+		basicsys_free(m_memory[i]);
 
-	if (m_memory_size[0] > 0) {
-		m_memory[0] = new mt_point[m_memory_size[0]];
-		memcpy(m_memory[0], other.m_memory[0], sizeof(mt_point) * m_memory_size[0]);
-	}
+		if (m_memory_size[i] > 0) {
+			m_memory[i] = (mt_point*)malloc(sizeof(mt_point) * m_memory_size[i]);
+			memcpy((void*)m_memory[i], other.m_memory[i], sizeof(mt_point) * m_memory_size[i]);
 
-	if (m_memory_size[1] > 0) {
-		m_memory[1] = new mt_point[m_memory_size[1]];
-		memcpy(m_memory[1], other.m_memory[1], sizeof(mt_point) * m_memory_size[1]);
+			//the regions that share the memory of the other result share the one of this result
+			for (i32 j = 0; j < (i32)m_msers[i].size(); ++j) {
+				if (m_msers[i][j].m_memory_type != img_mser::Memory_Type_Self && m_msers[i][j].m_points != NULL) {
+					m_msers[i][j].m_points = m_memory[i] + (m_msers[i][j].m_points - other.m_memory[i]);
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 6706d973fba97c4cec3bdc26bb02daa2c4d1a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 019/155] fix: matrices over given memory take it over whatever
 their dimensions

---
 basicmath/src/mt_mat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7c6de64..a5f052b 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1073,7 +1073,7 @@ mt_mat::mt_mat(int cols, mt_Depth_Channel depth, u8* data, const int* steps, u8*
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {cols};
-		*this = mt_mat(1, sizes, depth, data, steps);
+		*this = mt_mat(1, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1085,7 +1085,7 @@ mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* st
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {row, col};
-		*this = mt_mat(2, sizes, depth, data, steps);
+		*this = mt_mat(2, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1097,7 +1097,7 @@ mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, co
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {plane, row, col};
-		*this = mt_mat(3, sizes, depth, data, steps);
+		*this = mt_mat(3, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* data, const i32* steps, u8* share_mmeory) 
@@ -1144,7 +1144,7 @@ mt_mat::mt_mat(const vector<i32>& sizes, mt_Depth_Channel depth_channel, u8* dat
 	, m_dims(0)
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
-		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0]);
+		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0], share_mmeory);
 }
 
 mt_mat::mt_mat(const mt_mat& other, Construct_Type type)
-- 
2.43.0


From 5389436c379301dd742d1cb459cbaab4ca494167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 020/155] fix: matrices of more than four dimensions have
 memory for their sizes and steps

---
 basicmath/src/mt_mat.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index a5f052b..4fb7570 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1113,7 +1113,7 @@ mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* d
 
 		if (m_dims > 4) {
 			m_dynamic_size_step_size = m_dims;
-			m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+			m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
 		}
 
 		for (int i = 0; i < dims; ++i) {
@@ -2076,6 +2076,7 @@ void mt_mat::operator =(const mt_mat& other) {
 		}
 
 		m_dynamic_size_step_size = other.m_dims;
+		m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
 	}
 
 	m_dims = other.m_dims;
@@ -2236,9 +2237,9 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 	mt_mat res;
 	res.m_dims = dims;
 
-	if (res.m_dims > 4 && m_dynamic_size_step_size < res.m_dims) {
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < res.m_dims; ++i) {
@@ -2302,7 +2303,7 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < splited_dims; ++i) {
@@ -2355,6 +2356,11 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 
 	res.m_dims = m_dims - combined_dim_count + 1;
 
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
+		res.m_dynamic_size_step_size = res.m_dims;
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+	}
+
 	for (int i = 0; i < combined_dim_start; ++i) {
 		res.size()[i] = size()[i];
 		res.step()[i] = step()[i];
@@ -2574,7 +2580,7 @@ mt_mat mt_mat::channel_as_last_dim() const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < m_dims; ++i) {
@@ -2606,6 +2612,11 @@ mt_mat mt_mat::last_dim_as_channel() const {
 	mt_mat res;
 	res.m_dims = m_dims - 1;
 
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
+		res.m_dynamic_size_step_size = res.m_dims;
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+	}
+
 	for (int i = 0; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i];
 		res.step()[i] = step()[i];
@@ -2726,7 +2737,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 
 	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[res.m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	res.m_data = m_data;
-- 
2.43.0


From 7cd25a886b7e13bcb6c7358306be81ce560b6648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 021/155] fix: plane() gives a plane, not a column of every
 plane

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 4fb7570..fdf6a42 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2693,7 +2693,7 @@ mt_mat mt_mat::col(int col) const {
 mt_mat mt_mat::plane(int plane) const {
 	basiclog_assert("mt_mat", m_dims == 3);
 
-	return index(plane, 2);
+	return index(plane, 0);
 }
 
 mt_mat mt_mat::front(int number, int dim /* = 0 */) const {
-- 
2.43.0


From de64d0e3ab9f0cf6e81bd8720ee9ce6350ccba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 022/155] fix: flip of listed dimensions does not flip the
 others

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index fdf6a42..c88edfe 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2520,7 +2520,7 @@ mt_mat mt_mat::flip(int size, const int* dims) const {
 
 	basicmath_mat_request_memory(b8, flip_flags, dim());
 
-	for (i32 i = 0; i < size; ++i) {
+	for (i32 i = 0; i < dim(); ++i) {
 		flip_flags[i] = sys_false;
 	}
 
-- 
2.43.0


From ed9cb2431c36f1b0aa2e850472adbcbbf4fe518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 023/155] fix: set from a matrix of another depth reads it with
 its own depth

---
 basicmath/src/mt_mat.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index c88edfe..c41c2ca 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1520,7 +1520,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 		}
 	} else {
 		if (depth() == mt_U8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u8, u8>(*this, other);
 				break;
@@ -1556,7 +1556,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i8, u8>(*this, other);
 				break;
@@ -1592,7 +1592,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u16, u8>(*this, other);
 				break;
@@ -1628,7 +1628,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i16, u8>(*this, other);
 				break;
@@ -1664,7 +1664,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u32, u8>(*this, other);
 				break;
@@ -1700,7 +1700,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i32, u8>(*this, other);
 				break;
@@ -1736,7 +1736,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u64, u8>(*this, other);
 				break;
@@ -1772,7 +1772,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i64, u8>(*this, other);
 				break;
@@ -1808,7 +1808,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f32, u8>(*this, other);
 				break;
@@ -1844,7 +1844,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f64, u8>(*this, other);
 				break;
-- 
2.43.0


From 3aace96c0d7d1880fce32a5da27e6a01859e049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 024/155] fix: combine_dim copies matrices whose dimensions do
 not follow each other in memory

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index c41c2ca..048eb2a 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2341,7 +2341,7 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 	bool order_dim = true;
 
 	for (int i = 0; i < combined_dim_count - 1; ++i) {
-		if (step()[combined_dim_start + i] < step()[i + combined_dim_start + 1]) {
+		if (step()[combined_dim_start + i] != step()[i + combined_dim_start + 1] * size()[i + combined_dim_start + 1]) {
 			order_dim = false;
 			break;
 		}
-- 
2.43.0


From 32f383c737d4b15a8485ae74184a00dd1cb2d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 025/155] fix: sub along one dimension does not use its ranges
 after releasing them

---
 basicmath/src/mt_mat.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 048eb2a..8869581 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2788,8 +2788,11 @@ mt_mat mt_mat::sub(const mt_range& range, int dim) const {
 		}
 	}
 
+	mt_mat res = sub(m_dims, ranges);
+
 	basicmath_mat_release(ranges);
-	return sub(m_dims, ranges);
+
+	return res;
 
 	/*basiclog_assert("mt_mat", range.is_valid() && (range.m_end <= this->size()[dim]));
 
-- 
2.43.0


From 65b4ece14ab960ee4eeb6a073175db5c7649c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 026/155] fix: set of 3-d windows with more than four channels
 sets every channel of every element

---
 basicmath/src/mt_mat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 8869581..53827d6 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -478,9 +478,9 @@ namespace basicmath {
 
 								for (int c = 0; c < channels; ++c) {
 									ptr_data[c] = assign_values[c];
-
-									ptr_data += last_step;
 								}
+
+								ptr_data += last_step;
 							}
 
 							ptr_dim1 += mat.step()[1];
-- 
2.43.0


From 29f48fbc9d3253af7f92a961b59c1cad17c0ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 027/155] fix: reshape of a flipped matrix keeps to its memory

---
 basicmath/src/mt_mat.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 53827d6..c37c2c6 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2234,6 +2234,10 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 		basiclog_assert2(current_total_size == reshape_total_size);
 	}
 
+	if (!is_step_positive()) {
+		return clone().reshape(dims, sizes, new_channel);
+	}
+
 	mt_mat res;
 	res.m_dims = dims;
 
-- 
2.43.0


From 5c15732650f0adc6a2b1fd09f2a267312e9f2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 028/155] fix: is_zero looks at every byte of an element

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index c37c2c6..e10c992 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1332,7 +1332,7 @@ b8 mt_mat::is_zero() const {
 			break;
 		}
 
-		for (i32 c = 0; c < channel(); ++c) {
+		for (i32 c = 0; c < element_size(); ++c) {
 			if (ptr_data[c] != 0) {
 				return sys_false;
 			}
-- 
2.43.0


From 9dc2e80c4c642833bf314257dbe24c7694ade38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 029/155] fix: matrices of different dimensions are different

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index e10c992..6838761 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1353,7 +1353,7 @@ mt_mat& mt_mat::set_eye(b8 left_high) {
 }
 
 b8 mt_mat::operator==(const mt_mat& other) const {
-	if (other.depth_channel() != depth_channel()) {
+	if (other.depth_channel() != depth_channel() || other.dim() != dim()) {
 		return false;
 	}
 
-- 
2.43.0


From 44c95b252492d7dd3094f2ecd11305066cb240da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 030/155] fix: copying and comparing arrays of three and more
 dimensions goes through every element

---
 basicmath/src/mt_array_iteration.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_array_iteration.cpp b/basicmath/src/mt_array_iteration.cpp
index e309d43..88e088a 100644
--- a/basicmath/src/mt_array_iteration.cpp
+++ b/basicmath/src/mt_array_iteration.cpp
@@ -54,8 +54,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -124,8 +124,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -187,16 +187,17 @@ b8 mt_array_iteration::array_iteration(u8* dst, const u8* src, int ndims, const
 	int max_continuous_dim = max(src_continuous_dim, dst_continuous_dim);
 
 	if (max_continuous_dim != 0) {
-		if (ndims <= 4) {
+		if (ndims <= 3) {
 			if (type == mt_Array_Copy) {
 				private_array_iteration::memcpy(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
+				return sys_true;
 			} else {
 				return private_array_iteration::memcmp(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
 			}
 		}		
 	}
 
-	if (mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
+	if (max_continuous_dim == ndims || mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
 		mt_array_memory_block_const_iterator src_iteartor(src, ndims, sizes, src_steps, max_continuous_dim, element_size);
 		mt_array_memory_block_iterator dst_iteartor(dst, ndims, sizes, dst_steps, max_continuous_dim, element_size);
 
-- 
2.43.0


From 515c1b13ebfb4b2171ec9d2ff98534f8cd0f5344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 031/155] fix: get_index gives index 0 of dimensions of size 1

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 6838761..13dc776 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2886,7 +2886,7 @@ void mt_mat::get_index(vector<int>& index, const u8* ptr_data) const {
 				}
 			}
 
-			index[max_index] = offset / step()[max_index];
+			index[max_index] = size()[max_index] == 1 ? 0 : offset / step()[max_index];
 			offset -= index[max_index] * step()[max_index];
 			flags[max_index] = sys_true;
 
-- 
2.43.0


From ce722e327790b715cb80aac4a3399014190d3665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 032/155] fix: numbers minus or divided by a matrix follow the
 steps of its last dimension

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 5a5b303..70185ce 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1451,8 +1451,8 @@ namespace basicmath {
 				type_b[i] = (T)b[i];
 			}
 
-			i32 last_res_step = res.step()[res.dim() - 1] > 0 ? channels : -channels;
-			i32 last_a_step = a.step()[a.dim() - 1] > 0 ? channels : -channels;
+			i32 last_res_step = res.last_dim_element_step();
+			i32 last_a_step = a.last_dim_element_step();
 
 			if (res.is_continuous() && a.is_continuous()) {
 				T* ptr_res = (T*)res.data();
-- 
2.43.0


From 53f67b769b52be4a8e72d8a81cae2a8710a79269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 033/155] fix: the largest and smallest elements of a matrix
 have its channels

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 70185ce..a0f9e6b 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -611,10 +611,10 @@ namespace basicmath {
 			}
 
 			if (type == mt_mat::Reduce_Type_Max || type == mt_mat::Reduce_Type_Min) {
-				basicmath_mat_request_memory(f64, first_element, src.dim());
+				basicmath_mat_request_memory(f64, first_element, src.channel());
 				
 				src.get(first_element, 0);
-				dst.set(src.dim(), first_element);
+				dst.set(src.channel(), first_element);
 
 				basicmath_mat_release(first_element);
 			}
-- 
2.43.0


From ab8b4cabc6b444a607143153b016916b8e6bc486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 034/155] fix: activations without parameters do not take the
 address of the first one

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index a0f9e6b..52080fb 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -2814,7 +2814,7 @@ mt_mat mt_mat::sub_stride(i32 size, const i32* strides) const {
 }
 
 mt_mat mt_mat::activate(mt_Activate_Type type, const vector<f64>& activate_params) const {
-	return activate(type, (i32)activate_params.size(), &activate_params[0]);
+	return activate(type, (i32)activate_params.size(), activate_params.empty() ? NULL : &activate_params[0]);
 }
 
 mt_mat mt_mat::activate(mt_Activate_Type type, i32 activate_param_size, const f64* activate_params) const {
@@ -2840,7 +2840,7 @@ mt_mat mt_mat::activate(mt_Activate_Type type, i32 activate_param_size, const f6
 }
 
 mt_mat& mt_mat::self_activate(mt_Activate_Type type, const vector<f64>& activate_params) {
-	return self_activate(type, (i32)activate_params.size(), &activate_params[0]);
+	return self_activate(type, (i32)activate_params.size(), activate_params.empty() ? NULL : &activate_params[0]);
 }
 
 mt_mat& mt_mat::self_activate(mt_Activate_Type type, i32 activate_param_size, const f64* activate_params) {
-- 
2.43.0


From 95420840075b588de4598f154da898172cd3325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 035/155] fix: merged matrices may differ in the size of the
 merged dimension

---
 basicmath/src/mt_mat_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 99c5ffc..0f62cee 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -28,8 +28,8 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 	i32 dim_start_index = 0;
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[0].size()[dim], dim);
-		dim_start_index += elements[0].size()[dim];
+		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[i].size()[dim], dim);
+		dim_start_index += elements[i].size()[dim];
 
 		sub_mat.set(elements[i]);
 	}
-- 
2.43.0


From ed98c61f66fffca5c40655a237c14880605e6941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 036/155] fix: element_compared_mask compares with zero when
 there is no other matrix

---
 basicmath/src/mt_mat_math_operation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 52080fb..194ab8a 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -3005,15 +3005,15 @@ mt_mat mt_mat::reduce(mt_mat::Reduce_Type type, i32 reduce_dim) const {
 }
 
 mt_mat mt_mat::element_compared_mask(const mt_mat& other, mt_mat::Compare_Task task, f64 true_mask, f64 false_mask) const {
-	basiclog_assert2(is_same_size(other));
+	basiclog_assert2(other.is_empty() || is_same_size(other));
 	
-	if (other.depth() != depth()) {
+	if (!other.is_empty() && other.depth() != depth()) {
 		mt_mat temp = other.convert(depth());
 
 		return element_compared_mask(temp, task, true_mask, false_mask);
 	}
 
-	mt_mat res(other, mt_mat::Construct_Type_Create_As_Size);
+	mt_mat res(*this, mt_mat::Construct_Type_Create_As_Size);
 
 	switch (depth()) {
 	case mt_U8:
-- 
2.43.0


From ad9c00126fc765c82da35a31c4e0e6cf815cfe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 037/155] fix: the quadratic loss compares each element with
 its own, in every channel

---
 basicmath/src/mt_mat_math_operation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 194ab8a..788163b 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -284,7 +284,7 @@ namespace basicmath {
 			mt_array_element_const_iterator src_iter(src);
 			mt_array_element_const_iterator matching_iter(matching_mat);
 
-			mt_mat loss_res(1, 1, src.depth_channel());
+			mt_mat loss_res(1, 1, src.depth_channel(), 0.0);
 			T* ptr_dst = loss_res.ptr<T>(0, i32(0));
 
 			for (;;) {
@@ -294,9 +294,9 @@ namespace basicmath {
 					break;
 				}
 
-				const T* ptr_matching = (const T*)matching_mat.data();
+				const T* ptr_matching = (const T*)matching_iter.data();
 
-				for (i32 c = 0; c < src.dim(); ++c) {
+				for (i32 c = 0; c < src.channel(); ++c) {
 					if (mt_helper::is_number(ptr_matching[c])) {
 						ptr_dst[c] += (ptr_src[c] - ptr_matching[c]) * (ptr_src[c] - ptr_matching[c]) / 2;
 					}
-- 
2.43.0


From b17d0ccb5280429abcfac5641767fd2f0767341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 038/155] fix: the logarithmic loss follows the steps of the
 last dimension

---
 basicmath/src/mt_mat_math_operation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 788163b..38b7ab0 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -316,6 +316,8 @@ namespace basicmath {
 
 			const u8* ptr_src_dim0 = src.data();
 			const u8* ptr_matching_dim0 = matching_mat.data();
+			i32 src_last_step = src.last_dim_element_step();
+			i32 matching_last_step = matching_mat.last_dim_element_step();
 
 			if (1 == src.size()[1]) {
 				for (i32 row = 0; row < src.size()[0]; ++row) {
@@ -347,8 +349,8 @@ namespace basicmath {
 								*ptr_dst -= (T)log(*ptr_src_dim1 + DBL_EPSILON);
 								break;
 							} else {
-								++ptr_matching_dim1;
-								++ptr_src_dim1;
+								ptr_matching_dim1 += matching_last_step;
+								ptr_src_dim1 += src_last_step;
 							}
 						}
 
-- 
2.43.0


From 4806023e579a7a02a3563a2465d23d7cbc70aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 039/155] fix: softmax follows the steps of the last dimension

---
 basicmath/src/mt_mat_math_operation.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 38b7ab0..33e5c9b 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -208,17 +208,20 @@ namespace basicmath {
 			
 			const u8* ptr_src_dim0 = src.data();
 			u8* ptr_dst_dim0 = res.data();
+			i32 src_last_step = src.last_dim_element_step();
+			i32 dst_last_step = res.last_dim_element_step();
 
 			for (i32 row = 0; row < src.size()[0]; ++row) {
 				const T* ptr_src = (T*)ptr_src_dim0;				
-				T max_value = *ptr_src++;
+				T max_value = *ptr_src;
+				ptr_src += src_last_step;
 
 				for (int col = 1; col < src.size()[1]; ++col) {
 					if (*ptr_src > max_value) {
 						max_value = *ptr_src;
 					}
 
-					++ptr_src;
+					ptr_src += src_last_step;
 				}
 
 				ptr_src = (T*)ptr_src_dim0;
@@ -226,14 +229,17 @@ namespace basicmath {
 				T sum = (T)0.0;
 
 				for (i32 col = 0; col < src.size()[1]; ++col) {
-					*ptr_dst = exp(*ptr_src++ - max_value);
-					sum += *ptr_dst++;
+					*ptr_dst = exp(*ptr_src - max_value);
+					sum += *ptr_dst;
+					ptr_src += src_last_step;
+					ptr_dst += dst_last_step;
 				}
 
 				ptr_dst = (T*)ptr_dst_dim0;
 
 				for (i32 col = 0; col < src.size()[1]; ++col) {
-					*ptr_dst++ /= sum;
+					*ptr_dst /= sum;
+					ptr_dst += dst_last_step;
 				}
 
 				ptr_src_dim0 += src.step()[0];
-- 
2.43.0


From 782b36f0df26dfbf88b601befb49068057e6443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 040/155] fix: unpooling without a mask does not ask it for its
 steps

---
 basicmath/src/mt_pooling.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 648e262..da63a3a 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1066,7 +1066,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_2d_channel_1(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 
 				i32 mat_start_row = 0;
@@ -1146,7 +1146,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_2d_channel_n(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 				i32 channels = pooling_res_mat.channel();
 				i32 mat_start_row = 0;
@@ -1233,7 +1233,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_3d_channel_1(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 
 				i32 mat_start_plane = 0;
@@ -1350,7 +1350,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_3d_channel_n(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 				i32 channels = src.channel();
 				i32 mat_start_plane = 0;
-- 
2.43.0


From 6fd2206975a6b789d6471050d4e89a02b9139db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 041/155] fix: max and min pooling of 3-d matrices start with
 the first element of the window

---
 basicmath/src/mt_pooling.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index da63a3a..2647fe9 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -664,8 +664,8 @@ namespace basicmath {
 							i32 mat_start_col = 0;
 
 							for (int col = 0; col < res_cols; ++col) {
-								*ptr_result = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -720,7 +720,7 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -900,7 +900,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
 									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
@@ -959,8 +959,8 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
-									ptr_result[c] = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
-- 
2.43.0


From 4a5bc0fdcb0c03591857efc567b95e65f8f114f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 042/155] fix: unpooling of 3-d matrices goes through the
 elements of the mask

---
 basicmath/src/mt_pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 2647fe9..69ae785 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1308,7 +1308,7 @@ namespace basicmath {
 
 								src.at<T>(src_plane, src_row, src_col, 0) += *ptr_pooling_res;
 								ptr_pooling_res += pooling_res_last_step;
-								ptr_mask_dim1 += mask_last_step;
+								ptr_mask += mask_last_step;
 							}
 
 							ptr_pooling_res_dim1 += pooling_res_mat.step()[1];
@@ -1431,7 +1431,7 @@ namespace basicmath {
 								}
 								
 								ptr_pooling_res += pooling_res_last_step;
-								ptr_mask_dim1 += mask_last_step;
+								ptr_mask += mask_last_step;
 							}
 
 							ptr_pooling_res_dim1 += pooling_res_mat.step()[1];
-- 
2.43.0


From d097744a85e7737f23f26e303c041fa76f27bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 043/155] fix: unpooling of 3-d matrices with channels knows
 the size of its result

---
 basicmath/src/mt_pooling.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 69ae785..b35cbde 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1356,9 +1356,9 @@ namespace basicmath {
 				i32 mat_start_plane = 0;
 				const u8* ptr_pooling_res_dim0 = pooling_res_mat.data();
 
-				i32 src_planes = pooling_res_mat.size()[0];
-				i32 src_rows = pooling_res_mat.size()[1];
-				i32 src_cols = pooling_res_mat.size()[2];
+				i32 src_planes = src.size()[0];
+				i32 src_rows = src.size()[1];
+				i32 src_cols = src.size()[2];
 				i32 res_planes = pooling_res_mat.size()[0];
 				i32 res_rows = pooling_res_mat.size()[1];
 				i32 res_cols = pooling_res_mat.size()[2];
-- 
2.43.0


From 23c5cb757ba37b94b56b918deb99263ab38895a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 044/155] fix: unpooling of signed bytes keeps their sign

---
 basicmath/src/mt_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index b35cbde..84c14c5 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1561,7 +1561,7 @@ mt_mat mt_mat::unpooling(const int* src_size, const mt_mat& mask_mat, mt_Pooling
 		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_I8:
-		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
+		private_pooling::unpooling<i8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_U16:
 		private_pooling::unpooling<u16>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
-- 
2.43.0


From 56237ca394c55087766930886a0f9a365c909f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 045/155] fix: unpooling of sums works for 2-d and 3-d matrices
 too

---
 basicmath/src/mt_pooling.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 84c14c5..1c412e4 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1077,7 +1077,7 @@ namespace basicmath {
 				i32 res_rows = pooling_res_mat.size()[0];
 				i32 res_cols = pooling_res_mat.size()[1];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (int row = 0; row < res_rows; ++row) {
 						const T* ptr_pooling_res = (const T*)ptr_pooling_res_dim0;
 						int mat_stop_row = min(mat_start_row + kernel_sizes[0], src_rows);
@@ -1087,7 +1087,7 @@ namespace basicmath {
 						for (int col = 0; col < res_cols; ++col) {					
 							int mat_stop_col = min(mat_start_col + kernel_sizes[1], src_cols);
 
-							int area = (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+							int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 							T unpooling_data = *ptr_pooling_res / area;
 
 							for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
@@ -1157,7 +1157,7 @@ namespace basicmath {
 				i32 res_rows = pooling_res_mat.size()[0];
 				i32 res_cols = pooling_res_mat.size()[1];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (int row = 0; row < res_rows; ++row) {
 						const T* ptr_pooling_res = (const T*)ptr_pooling_res_dim0;
 						int mat_stop_row = min(mat_start_row + kernel_sizes[0], src_rows);
@@ -1166,7 +1166,7 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {					
 							int mat_stop_col = min(mat_start_col + kernel_sizes[1], src_cols);
-							int area = (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+							int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 
 							for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
 								T* ptr_src = src.ptr<T>(pooling_row, mat_start_col, 0);
@@ -1248,7 +1248,7 @@ namespace basicmath {
 
 				i32 src_plane_element_number = src.size()[1] * src.size()[2];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (i32 plane = 0; plane < res_planes; ++plane) {
 						const u8* ptr_pooling_res_dim1 = ptr_pooling_res_dim0;
 
@@ -1264,7 +1264,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {					
 								int mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
-								int area = (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+								int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 								T unpooling_data = *ptr_pooling_res / area;
 
 								for (i32 pooling_plane = mat_start_plane; pooling_plane < mat_stop_plane; ++pooling_plane) {
@@ -1365,7 +1365,7 @@ namespace basicmath {
 
 				i32 src_plane_element_number = src.size()[1] * src.size()[2];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (i32 plane = 0; plane < res_planes; ++plane) {
 						const u8* ptr_pooling_res_dim1 = ptr_pooling_res_dim0;
 
@@ -1381,7 +1381,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {					
 								int mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
-								int area = (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+								int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 
 								for (i32 pooling_plane = mat_start_plane; pooling_plane < mat_stop_plane; ++pooling_plane) {
 									for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
-- 
2.43.0


From 7bcf4f14644fed6f53aba7839e4202feb8a71ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 046/155] fix: every channel is pooled by index and unpooled by
 its own mask

---
 basicmath/src/mt_pooling.cpp | 41 +++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 1c412e4..f19429b 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -115,14 +115,12 @@ namespace basicmath {
 					} else if (pooling_type == mt_Pooling_Type_Index) {
 						i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
 
-						mt_helper::multi_index_from_index(src_iter_indexs, *ptr_mask_data, src.dim(), src.size());
-
-						basiclog_assert2(src.is_valid_index(src_iter_indexs));
+						for (i32 c = 0; c < src.channel(); ++c) {
+							mt_helper::multi_index_from_index(src_iter_indexs, ptr_mask_data[c], src.dim(), src.size());
 
-						const T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
+							basiclog_assert2(src.is_valid_index(src_iter_indexs));
 
-						for (i32 c = 0; c < src.channel(); ++c) {
-							ptr_data[c] = ptr_src_data[c];
+							ptr_data[c] = *src.ptr<T>(src_iter_indexs, c);
 						}
 					}
 				}
@@ -224,11 +222,10 @@ namespace basicmath {
 					} else if (pooling_type == mt_Pooling_Type_Max || pooling_type == mt_Pooling_Type_Min || pooling_type == mt_Pooling_Type_Index) {
 						const i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
 
-						mt_helper::multi_index_from_index(src_iter_indexs, *ptr_mask_data, src.dim(), src.size());
-						T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
-
 						for (i32 c = 0; c < src.channel(); ++c) {
-							ptr_src_data[c] += ptr_data[c];
+							mt_helper::multi_index_from_index(src_iter_indexs, ptr_mask_data[c], src.dim(), src.size());
+
+							*src.ptr<T>(src_iter_indexs, c) += ptr_data[c];
 						}
 					}
 				}
@@ -565,7 +562,7 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {
 							for (i32 c = 0; c < channels; ++c) {
-								ptr_result[c] = src.at<T>(ptr_mask[c] / src_cols, ptr_mask[c] % src_cols, 0);
+								ptr_result[c] = src.at<T>(ptr_mask[c] / src_cols, ptr_mask[c] % src_cols, c);
 							}
 
 							mat_start_col += strides[1];
@@ -1039,11 +1036,11 @@ namespace basicmath {
 							i32* ptr_mask = (i32*)ptr_mask_dim1;
 
 							for (int col = 0; col < res_cols; ++col) {
-								i32 src_plane = *ptr_mask / src_plane_element_number;
-								i32 src_row = (*ptr_mask - src_plane * src_plane_element_number) /  src_cols;
-								i32 src_col = *ptr_mask % src_cols;
-
 								for (i32 c = 0; c < channels; ++c) {
+									i32 src_plane = ptr_mask[c] / src_plane_element_number;
+									i32 src_row = (ptr_mask[c] - src_plane * src_plane_element_number) /  src_cols;
+									i32 src_col = ptr_mask[c] % src_cols;
+
 									ptr_result[c] = src.at<T>(src_plane, src_row, src_col, c);
 								}
 								
@@ -1195,10 +1192,10 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {
 
-							int src_row = (*ptr_mask_dim1) / src_cols;
-							int src_col = *ptr_mask_dim1 % src_cols;
-
 							for (i32 c = 0; c < channels; ++c) {
+								int src_row = ptr_mask_dim1[c] / src_cols;
+								int src_col = ptr_mask_dim1[c] % src_cols;
+
 								src.at<T>(src_row, src_col, c) += ptr_pooling_res[c];
 							}
 
@@ -1422,11 +1419,11 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 
-								i32 src_plane = *ptr_mask / src_plane_element_number;
-								i32 src_row = (*ptr_mask - src_plane * src_plane_element_number) /  src_cols;
-								i32 src_col = *ptr_mask % src_cols;
-
 								for (i32 c = 0; c < channels; ++c) {
+									i32 src_plane = ptr_mask[c] / src_plane_element_number;
+									i32 src_row = (ptr_mask[c] - src_plane * src_plane_element_number) /  src_cols;
+									i32 src_col = ptr_mask[c] % src_cols;
+
 									src.at<T>(src_plane, src_row, src_col, c) += ptr_pooling_res[c];
 								}
 								
-- 
2.43.0


From 3d618993126e925c2241e54dcd50c110e8f814e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 047/155] fix: the index of each dimension is the quotient by
 the elements below it

---
 basicmath/include/mt_helper.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 331bf82..b01e507 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -233,9 +233,12 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < size; ++i) {
-				i32 cur_dim_index = index % dim_element_number;
+				i32 cur_dim_index = index / dim_element_number;
 				index = index - cur_dim_index * dim_element_number;
-				dim_element_number /= sizes[i + 1];
+
+				if (i + 1 < size) {
+					dim_element_number /= sizes[i + 1];
+				}
 
 				indexs[i] = cur_dim_index;
 			}
-- 
2.43.0


From cebad361f129f797f066eff1d4226b18941e3523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 048/155] fix: writers that append keep what the file holds

---
 basicsys/src/sys_buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c5aa3ce..166a29c 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -295,7 +295,7 @@ sys_buffer_reader* sys_byte_buffer_reader::seek(i64 offset, sys_File_Seek seek_t
 
 sys_byte_file_buffer_writer::sys_byte_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 	: sys_byte_buffer_writer(NULL) {
-		if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+		if (fopen_s(&m_file, file_path.c_str(), is_append ? "ab" : "wb") != 0) {
 			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
@@ -730,7 +730,7 @@ sys_buffer_reader* sys_string_buffer_reader::seek(i64 offset, sys_File_Seek seek
 
 sys_string_file_buffer_writer::sys_string_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 : sys_string_buffer_writer(NULL) {
-	if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+	if (fopen_s(&m_file, file_path.c_str(), is_append ? "ab" : "wb") != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to _wfopen_s");
 	}
-- 
2.43.0


From dc0f6f3db3b85bedfc2280f3cca094a917b334b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 049/155] fix: fopen_s reports files it cannot open

---
 basicsys/include/sys_basic_define.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/include/sys_basic_define.h b/basicsys/include/sys_basic_define.h
index 6ad0bcf..b8f09b0 100644
--- a/basicsys/include/sys_basic_define.h
+++ b/basicsys/include/sys_basic_define.h
@@ -92,7 +92,7 @@ namespace basicsys {
 static int fopen_s(FILE ** fp, const char * path, const char * flag) {
 	*fp = fopen(path, flag);
 
-	if (*flag != NULL) {
+	if (*fp != NULL) {
 		return 0;
 	}
 
-- 
2.43.0


From 0c75216ac73701f137722c894e9b6c346c9140f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 050/155] fix: file buffers report their status

---
 basicsys/include/sys_buffer.h | 16 ----------------
 basicsys/src/sys_buffer.cpp   |  2 +-
 2 files changed, 1 insertion(+), 17 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index f56ce7b..94df03f 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -260,15 +260,10 @@ namespace basicsys {
 
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
-		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
-		}
-
 	protected:
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 	class sys_byte_file_buffer_reader : public sys_byte_buffer_reader {
@@ -283,10 +278,6 @@ namespace basicsys {
 			return m_file == NULL;
 		}
 
-		virtual sys_IO_Status get_status() const {
-			return m_file_io_status;
-		}
-
 		/**
 
 		@note the read operation will move the position of the FILE structure!
@@ -324,7 +315,6 @@ namespace basicsys {
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 
@@ -463,15 +453,10 @@ namespace basicsys {
 		
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
-		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
-		}
-
 	protected:
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 	class sys_string_file_buffer_reader : public sys_string_buffer_reader {
@@ -503,7 +488,6 @@ namespace basicsys {
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 166a29c..5842b27 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -801,7 +801,7 @@ sys_buffer_writer* sys_string_file_buffer_writer::seek(i64 offset, sys_File_Seek
 sys_string_file_buffer_reader::sys_string_file_buffer_reader(const string& file_path)
 	: sys_string_buffer_reader(string()) {
 		if (fopen_s(&m_file, file_path.c_str(), "rb") != 0) {
-			m_file_io_status = sys_IO_Status_Error_File_Operation;
+			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
 
-- 
2.43.0


From 6ad994069fd730dcdf41db444b9a4795805a3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 051/155] fix: byte writers may write nothing to a file

---
 basicsys/src/sys_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 5842b27..bac8e4e 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -323,7 +323,7 @@ void sys_byte_file_buffer_writer::close() {
 
 sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8* stop) {
 
-	if (fwrite(start, stop - start, 1, m_file) != 1) {
+	if (stop != start && fwrite(start, stop - start, 1, m_file) != 1) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fwrite");
 	}
-- 
2.43.0


From 6cffff4838e52ac6eb29c3e0c1004dda53937714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 052/155] fix: readers of byte files close them

---
 basicsys/include/sys_buffer.h | 2 ++
 basicsys/src/sys_buffer.cpp   | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index 94df03f..a80aced 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -274,6 +274,8 @@ namespace basicsys {
 
 		virtual ~sys_byte_file_buffer_reader();
 
+		virtual void close();
+
 		virtual b8 is_closed() const {
 			return m_file == NULL;
 		}
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index bac8e4e..20b5bc0 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -375,6 +375,14 @@ sys_byte_file_buffer_reader::~sys_byte_file_buffer_reader() {
 	close();
 }
 
+void sys_byte_file_buffer_reader::close() {
+	if (m_file != NULL && m_need_close_file) {
+		fclose(m_file);
+	}
+
+	m_file = NULL;
+}
+
 //c16 sys_byte_file_buffer_reader::read_c16() const {
 //	c16 value;
 //	u8* ptr_value = (u8*)&value;
-- 
2.43.0


From eddf53d1e218cf2f300b5b5de626ee692acbe43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 053/155] fix: read_char goes on to the next character

---
 basicsys/src/sys_buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 20b5bc0..efae51c 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -681,8 +681,10 @@ i8 sys_string_buffer_reader::read_char() const {
 		return 0;
 	}
 
-	return m_str->at(m_position / sizeof(i8));
+	i8 c = m_str->at(m_position / sizeof(i8));
 	m_position += sizeof(i8);
+
+	return c;
 }
 
 void sys_string_buffer_reader::read_str(string& str, i32 size) const {
-- 
2.43.0


From 7c840a3b14bc3b1568d0c692e03a11f11f40a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 054/155] fix: read_line ends at the end of the line

---
 basicsys/src/sys_buffer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index efae51c..6d9d7e6 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -712,9 +712,11 @@ void sys_string_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
 
@@ -944,8 +946,10 @@ void sys_string_file_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From c85b826a4ecb73824867fd9d42c5d104982d9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 055/155] fix: strings read from buffers hold every character
 asked for

---
 basicsys/src/sys_buffer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 6d9d7e6..910276b 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -243,7 +243,7 @@ void sys_byte_buffer_reader::read_str(string& str, i32 size) const {
 	read((u8*)buffer, size);
 
 	if (m_io_status == sys_IO_Status_OK) {
-		str = string(buffer);
+		str = string(buffer, character_number);
 	}
 	
 	delete[] buffer;
@@ -866,7 +866,7 @@ i8 sys_string_file_buffer_reader::read_char() const {
 }
 
 void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
-	if (is_eof()) {
+	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return;
 	}
@@ -882,7 +882,8 @@ void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
 	}
 
 	temp[character_count] = 0;
-	str = temp;
+	str = string(temp, character_count);
+	delete[] temp;
 }
 
 i64 sys_string_file_buffer_reader::position() const {
-- 
2.43.0


From 0306e0c083b0be71a21bc9ee31b60b16e93505f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 056/155] fix: constant readers can be asked for their kind

---
 basicsys/include/sys_buffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index a80aced..d8e283f 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -93,9 +93,9 @@ namespace basicsys {
 		virtual sys_buffer_reader* seek(i64 offset, sys_File_Seek seek_type) = 0;
 
 		virtual sys_byte_buffer_reader* to_byte_buffer_reader() {return NULL;}
-		const sys_byte_buffer_reader* to_byte_buffer_reader() const {return (const_cast<const sys_buffer_reader*>(this))->to_byte_buffer_reader();}
+		const sys_byte_buffer_reader* to_byte_buffer_reader() const {return (const_cast<sys_buffer_reader*>(this))->to_byte_buffer_reader();}
 		virtual sys_string_buffer_reader* to_string_buffer_reader() {return NULL;}
-		const sys_string_buffer_reader* to_string_buffer_reader() const {return (const_cast<const sys_buffer_reader*>(this))->to_string_buffer_reader();}
+		const sys_string_buffer_reader* to_string_buffer_reader() const {return (const_cast<sys_buffer_reader*>(this))->to_string_buffer_reader();}
 
 		sys_IO_Status get_status() const {return m_io_status;}
 
-- 
2.43.0


From 4ca9a81eedb33f78716e8b1d6a37247ae70399ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 057/155] fix: json readers know that they have not loaded
 their nodes yet

---
 basicsys/src/sys_json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 64948d8..9753b74 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -421,6 +421,7 @@ sys_json_reader::sys_json_reader(sys_buffer_reader* reader, const string& node_n
 	m_offset = offset;
 	m_size = size;
 	m_node_type = node_type;
+	m_loaded = sys_false;
 
 	if (m_size == -1) {
 		m_size = (i32)reader->remain_size();
-- 
2.43.0


From a91ec4ae700bcc6b8efa426dab9802b829ceb2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 058/155] fix: the size of a json node is known before its
 elements are read

---
 basicsys/include/sys_json.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index 50aac3a..a5d0740 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -165,6 +165,8 @@ namespace basicsys {
 		b8 has_key(const string& key_name) const;
 
 		i32 size() const {
+			(const_cast<sys_json_reader*>(this))->load();
+
 			if (is_map()) {
 				return (i32)m_map_nodes.size();
 			} else if (is_seq()) {
-- 
2.43.0


From 011821e1930421c2bd105060f903bff9d90ebdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 059/155] fix: text json documents hold signed bytes as numbers

---
 basicsys/src/sys_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 9753b74..5c57957 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -72,7 +72,7 @@ sys_json_writer& sys_json_writer::operator<<(const i8& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strcombine()<<(i32)val);
 	} else {
 		m_writer->write(sys_Node_Type_Int);
 		m_writer->write((i32)sizeof(i8));
-- 
2.43.0


From 9b979b6e579ad741d4430cf4921cbd1b5baaa46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 060/155] fix: integers of binary json documents are read
 exactly, unsigned ones too

---
 basicsys/include/sys_json.h |  1 +
 basicsys/src/sys_json.cpp   | 61 +++++++++++++++++++------------------
 2 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index a5d0740..9181cf4 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -268,6 +268,7 @@ namespace basicsys {
 		string m_node_name;
 
 		void load();
+		i64 binary_read_integer() const;
 		void text_load_struct_info();
 		void binary_load_struct_info();
 
diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 5c57957..6b2c713 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -478,10 +478,7 @@ void sys_json_reader::operator>>(i8& val) const {
 		val = (i8)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i8)tmp;
+		val = (i8)binary_read_integer();
 	}
 }
 
@@ -495,10 +492,7 @@ void sys_json_reader::operator>>(u8& val) const {
 		val = (u8)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u8)tmp;
+		val = (u8)binary_read_integer();
 	}
 }
 
@@ -512,10 +506,7 @@ void sys_json_reader::operator>>(u16& val) const {
 		val = (u16)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u16)tmp;
+		val = (u16)binary_read_integer();
 	}
 }
 
@@ -529,10 +520,7 @@ void sys_json_reader::operator>>(i16& val) const {
 		val = (i16)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i16)tmp;
+		val = (i16)binary_read_integer();
 	}
 }
 
@@ -546,10 +534,7 @@ void sys_json_reader::operator>>(u32& val) const {
 		val = (u32)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u32)tmp;
+		val = (u32)binary_read_integer();
 	}
 }
 
@@ -563,10 +548,7 @@ void sys_json_reader::operator>>(i32& val) const {
 		val = atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i32)tmp;
+		val = (i32)binary_read_integer();
 	}
 }
 
@@ -580,10 +562,7 @@ void sys_json_reader::operator>>(u64& val) const {
 		val = (u64)_atoi64(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u64)tmp;
+		val = (u64)binary_read_integer();
 	}
 }
 
@@ -597,11 +576,35 @@ void sys_json_reader::operator>>(i64& val) const {
 		val = _atoi64(text.c_str());
 
 	} else {
+		val = (i64)binary_read_integer();
+	}
+}
+
+i64 sys_json_reader::binary_read_integer() const {
+	(const_cast<sys_json_reader*>(this))->load();
+
+	if (m_node_type != sys_Node_Type_Int) {
 		f64 tmp = 0;
 		(*this)>>tmp;
 
-		val = (i64)tmp;
+		return (i64)tmp;
 	}
+
+	m_reader->seek(m_offset, sys_File_Seek_Set);
+	sys_byte_buffer_reader* byte_reader = (sys_byte_buffer_reader*)m_reader;
+
+	if (m_size == sizeof(i8)) {
+		return byte_reader->read_c8();
+	} else if (m_size == sizeof(i16)) {
+		return byte_reader->read_i16();
+	} else if (m_size == sizeof(i32)) {
+		return byte_reader->read_i32();
+	} else if (m_size == sizeof(i64)) {
+		return byte_reader->read_i64();
+	}
+
+	basiclog_assert2(false);
+	return 0;
 }
 
 void sys_json_reader::operator>>(f32& val) const {
-- 
2.43.0


From 4257fe8f1e71bcce30b8980afbae4b544a6c4d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 061/155] fix: unsigned integers of text json documents are
 read over their whole range

---
 basicsys/src/sys_json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 6b2c713..5af148a 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -531,7 +531,7 @@ void sys_json_reader::operator>>(u32& val) const {
 
 		basiclog_assert2(!text.empty());
 
-		val = (u32)atoi(text.c_str());
+		val = (u32)_atoi64(text.c_str());
 
 	} else {
 		val = (u32)binary_read_integer();
@@ -559,7 +559,7 @@ void sys_json_reader::operator>>(u64& val) const {
 
 		basiclog_assert2(!text.empty());
 
-		val = (u64)_atoi64(text.c_str());
+		val = (u64)strtoull(text.c_str(), NULL, 10);
 
 	} else {
 		val = (u64)binary_read_integer();
-- 
2.43.0


From cfa99db25e7cc83408cb4b007fbb8831cede8e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 062/155] fix: a single json value replaces what the vector
 held

---
 basicsys/include/sys_json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index 9181cf4..a63e1e2 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -224,6 +224,7 @@ namespace basicsys {
 					++iter;
 				}
 			} else if (!is_map()) {
+				val.clear();
 				val.push_back(T());
 				(*this)>>val.back();
 			}
-- 
2.43.0


From 9d19c3c44a63580081d7782dd033bbd6c0cdab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 063/155] fix: text json sequences keep empty texts at their
 start

---
 basicsys/src/sys_json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 5af148a..a497d33 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -771,8 +771,8 @@ void sys_json_reader::text_load_struct_info() {
 					last_index = node_data_stop_index + 2; //need skip } or ], and \n
 				}
 			} else {
-				//must be element!
-				int last_index = valid_index;
+				//must be element! An element follows the tabs of the end of the sequence and one more tab, empty elements included
+				int last_index = min(valid_index, (i32)text.size() - (i32)text.rfind('\n'));
 				for (i32 i = last_index; i < (i32)text.size(); ++i) {
 					if (text.at(i) == '\t' || text.at(i) == '\n') {
 						//basiclog_assert2(i > last_index);
-- 
2.43.0


From 965a81a86448c7696d8f8d41664273d09470d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 064/155] fix: the levenshtein distance does not wrap at 256

---
 basicsys/src/sys_strhelper.cpp | 82 ++++++++++------------------------
 1 file changed, 24 insertions(+), 58 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index e61b0c1..4ca9786 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -105,66 +105,32 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 	wstring::size_type size2 = smallString->size();
 	int dist = 0;
 
-#define STRING_DEFINE_BUFFER_ALLOC_STATIC(dataType, bufferSize)	\
-	dataType buffer1[bufferSize];	\
-	dataType buffer2[bufferSize];	\
-	dataType* p = buffer1;	\
-	dataType* q = buffer2;	\
-
-#define STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(dataType, bufferSize)	\
-	dataType* p = new dataType[bufferSize];	\
-	dataType* q = new dataType[bufferSize];	\
-
-#define STRING_DEFINE_CALCULATE_DIST(dataType)	\
-	p[0] = 0;	\
-	for (string::size_type i = 1; i <= size2; ++i) {	\
-	p[i] = p[i - 1] + (dataType)insertCost;	\
-	}	\
-	for (string::size_type i = 1; i <= size1; ++i) {	\
-	q[0] = p[0] + deleteCost;	\
-	for (string::size_type j = 1; j <= size2; ++j) {	\
-	dataType d_del = p[j] + (dataType)deleteCost;	\
-	dataType d_ins = q[j - 1] + (dataType)insertCost;	\
-	dataType d_replace = p[j - 1] + ((*largeString)[i - 1] == (*smallString)[j - 1] ? 0 : (dataType)replaceCost);	\
-	q[j] = d_del;	\
-	if (d_ins < q[j]) {	\
-	q[j] = d_ins;	\
-	}	\
-	if (d_replace < q[j]) {	\
-	q[j] = d_replace;	\
-	}	\
-	}	\
-	swap(p, q);	\
-	}	\
-	dist = (int)p[size2];	\
-
-	//optimization
-	if (size2 < 16) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 16);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 32) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 32);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 64) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 64);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 256) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 256);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 1024) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 1024);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
-	} else if (size2 < 4048) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 4048);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
-	} else if (size2 < SHRT_MAX) {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint16_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
-	} else {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint32_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint32_t);
+	//The distance may be as large as the size of the large string multiplied by the costs
+	vector<int> buffer1(size2 + 1);
+	vector<int> buffer2(size2 + 1);
+	int* p = &buffer1[0];
+	int* q = &buffer2[0];
+
+	for (string::size_type i = 1; i <= size2; ++i) {
+		p[i] = p[i - 1] + insertCost;
+	}
+
+	for (string::size_type i = 1; i <= size1; ++i) {
+		q[0] = p[0] + deleteCost;
+
+		for (string::size_type j = 1; j <= size2; ++j) {
+			int d_del = p[j] + deleteCost;
+			int d_ins = q[j - 1] + insertCost;
+			int d_replace = p[j - 1] + ((*largeString)[i - 1] == (*smallString)[j - 1] ? 0 : replaceCost);
+
+			q[j] = min(d_del, min(d_ins, d_replace));
+		}
+
+		swap(p, q);
 	}
 
+	dist = p[size2];
+
 	return dist;
 }
 
-- 
2.43.0


From 47d9d88beea0224613fdbbc226f851370689659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 065/155] fix: the levenshtein distance charges insertions and
 deletions to the right word

---
 basicsys/src/sys_strhelper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 4ca9786..fc8a656 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -76,9 +76,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	//Process the exception
 	if (word1.empty()) {
-		return (int)word2.size();
+		return (int)word2.size() * insertCost;
 	} else if (word2.empty()) {
-		return (int)word1.size();
+		return (int)word1.size() * deleteCost;
 	}
 
 	//Select the small string as base to reduce the memory requirement
@@ -99,6 +99,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	if (word1.size() > word2.size()) {
 		swap(smallString, largeString);
+	} else {
+		//The large string is the target, its characters are the inserted ones
+		swap(insertCost, deleteCost);
 	}
 
 	wstring::size_type size1 = largeString->size();
-- 
2.43.0


From 19385eb3eed3d5d9f1c0fcd526357c3988171b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 066/155] fix: split skips the whole separator, and an empty
 separator does not split

---
 basicsys/src/sys_strhelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index fc8a656..da3e278 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -32,7 +32,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 	}
 
 	if (split_tag.empty()) {
-		elements.push_back(split_tag);
+		elements.push_back(text);
 		return;
 	}
 
@@ -46,7 +46,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 		} else {
 			elements.push_back(text.substr(index, tempIndex - index));
 
-			index = tempIndex + 1;
+			index = tempIndex + split_tag.size();
 		}
 	}
 }
-- 
2.43.0


From 8616c4a421cc85fba897854845414b77d556b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 067/155] fix: replacing an empty text ends

---
 basicsys/src/sys_strhelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index da3e278..4e2eaf5 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -52,6 +52,10 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 }
 
 void sys_strhelper::replace(string& text, const string& newValue, const string& oldValue) {
+	if (oldValue.empty()) {
+		return;
+	}
+
 	for(string::size_type pos = 0; pos != string::npos; pos += newValue.length())   {     
 		if ((pos = text.find(oldValue, pos)) != string::npos) {
 			text.replace(pos, oldValue.length(), newValue);     
-- 
2.43.0


From 3f6cfe9084c68e474e7e90a7e28f0dd0bec038d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 068/155] fix: derivatives of operations that use a matrix more
 than once

---
 basicmath/include/mt_auto_derivative.h      |  2 +-
 basicmath/include/mt_auto_derivative_tree.h | 23 ++++++++++-------
 basicmath/src/mt_auto_derivative.cpp        |  8 +++---
 basicmath/src/mt_auto_derivative_tree.cpp   | 28 ++++++++++-----------
 4 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative.h b/basicmath/include/mt_auto_derivative.h
index 3ef4027..b058abd 100644
--- a/basicmath/include/mt_auto_derivative.h
+++ b/basicmath/include/mt_auto_derivative.h
@@ -113,7 +113,7 @@ namespace basicmath {
 
 	protected:
 
-		void find_node_in_parent(vector<mt_ad_tree_node*>& parents, const mt_ad_tree_node* node) const;
+		void find_node_in_parent(vector<mt_ad_tree_node*>& parents, vector<i32>& child_indexes, const mt_ad_tree_node* node) const;
 
 		void derivative(mt_ad_tree_node* target, const mt_ad_tree_node* src, const mt_mat& src_mat);
 
diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 4614d5e..4c12e0a 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -61,7 +61,7 @@ namespace basicmath {
 		virtual b8 match(const mt_mat& other) const = 0;
 		virtual b8 related(const mt_mat& other) const = 0;
 
-		virtual mt_mat derivate_child(mt_ad_mat_tree_node* child_node, const mt_mat& src) = 0;
+		virtual mt_mat derivate_child(i32 child_index, const mt_mat& src) = 0;
 		virtual mt_ad_mat_tree_node* to_mat_tree_node() {return NULL;}
 		virtual mt_ad_const_leaf_tree_node* to_const_leaf_tree_node() {return NULL;}
 
@@ -87,7 +87,7 @@ namespace basicmath {
 			 return sys_false;
 		 }
 
-		mt_mat derivate_child(mt_ad_mat_tree_node* child_node, const mt_mat& src) {return mt_mat();}
+		mt_mat derivate_child(i32 child_index, const mt_mat& src) {return mt_mat();}
 		mt_ad_const_leaf_tree_node* to_const_leaf_tree_node() {return this;}
 
 		vector<f64> m_values;
@@ -98,6 +98,7 @@ namespace basicmath {
 
 		mt_ad_mat_tree_node(i32 max_cache_size = mt_Auto_Derivative_Default_Max_Cache_Size) {
 			m_max_cache_size = max_cache_size;
+			m_child_index = 0;
 		}
 
 		virtual ~mt_ad_mat_tree_node() {}
@@ -114,8 +115,11 @@ namespace basicmath {
 			return this;
 		}
 
-		mt_mat derivate_child(mt_ad_mat_tree_node* child_node, const mt_mat& src) {
-			mt_mat child_derivative = derivate_child_on_operation(child_node, derivative_res(src));
+		/** A mat may be several childs of an operation (like a * a), so that the child is given by its index.
+		*/
+		mt_mat derivate_child(i32 child_index, const mt_mat& src) {
+			m_child_index = child_index;
+			mt_mat child_derivative = derivate_child_on_operation(m_childs[child_index]->to_mat_tree_node(), derivative_res(src));
 
 			if (!child_derivative.is_continuous()) {
 				// make the mat to be continuous
@@ -181,6 +185,7 @@ namespace basicmath {
 	protected:
 
 		i32 m_max_cache_size;
+		i32 m_child_index;
 
 		virtual mt_mat derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) = 0;
 	};
@@ -265,9 +270,9 @@ namespace basicmath {
 		mt_mat derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
 			mt_mat child_derivative = derivative_res;
 
-			if (child_node == m_childs[0]) {
+			if (m_child_index == 0) {
 				return derivative_res;
-			} else if (child_node == m_childs[1]) {
+			} else if (m_child_index == 1) {
 				return -derivative_res;
 			} else {
 				basiclog_assert_message2(sys_false, "input child_node is not in the m_childs!");
@@ -343,9 +348,9 @@ namespace basicmath {
 	protected:
 
 		mt_mat derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-			if (child_node == m_childs[0]) {
+			if (m_child_index == 0) {
 				return derivative_res.mul(m_childs[1]->to_mat_tree_node()->m_mat.t());
-			} else if (child_node == m_childs[1]) {
+			} else if (m_child_index == 1) {
 				//basiclog_info2(m_childs[0]->to_mat_tree_node()->m_mat.t().mul(derivative_res));
 				return m_childs[0]->to_mat_tree_node()->m_mat.t().mul(derivative_res);
 			} else {
@@ -892,7 +897,7 @@ namespace basicmath {
 			i32 dim_start_index = 0;
 			
 			for (i32 i = 0; i < (i32)m_childs.size(); ++i) {
-				if (m_childs[i] == child_node) {
+				if (i == m_child_index) {
 					return derivative_res.sub(dim_start_index, dim_start_index + m_childs[i]->to_mat_tree_node()->m_mat.size()[m_dim], m_dim);
 				} else {
 					dim_start_index += m_childs[i]->to_mat_tree_node()->m_mat.size()[m_dim];
diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index f73a278..d4940f6 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -299,13 +299,14 @@ void mt_auto_derivative::reset() {
 	m_nodes.clear();
 }
 
-void mt_auto_derivative::find_node_in_parent(vector<mt_ad_tree_node*>& parents, const mt_ad_tree_node* node) const {
+void mt_auto_derivative::find_node_in_parent(vector<mt_ad_tree_node*>& parents, vector<i32>& child_indexes, const mt_ad_tree_node* node) const {
 	for (int i = 0; i < (int)m_nodes.size(); ++i) {
 		mt_ad_mat_tree_node* mat_node = m_nodes[i]->to_mat_tree_node();
 		if (mat_node != NULL) {
 			for (i32 j = 0; j < (i32)mat_node->m_childs.size(); ++j) {
 				if (mat_node->m_childs[j] == node) {
 					parents.push_back(m_nodes[i]);
+					child_indexes.push_back(j);
 				}
 			}
 		}
@@ -459,7 +460,8 @@ void mt_auto_derivative::derivative(mt_ad_tree_node* target, const mt_ad_tree_no
 	}
 
 	vector<mt_ad_tree_node*> target_parents;
-	find_node_in_parent(target_parents, target);
+	vector<i32> child_indexes;
+	find_node_in_parent(target_parents, child_indexes, target);
 
 	vector<mt_mat> res;
 
@@ -469,7 +471,7 @@ void mt_auto_derivative::derivative(mt_ad_tree_node* target, const mt_ad_tree_no
 		if (!target_parents[i]->to_mat_tree_node()->derivative_res(src_mat).is_empty()) {
 			//basiclog_info2(target_parents[i]->to_mat_tree_node()->derivative_res(src_mat));
 
-			res.push_back(target_parents[i]->to_mat_tree_node()->derivate_child(target->to_mat_tree_node(), src_mat));
+			res.push_back(target_parents[i]->to_mat_tree_node()->derivate_child(child_indexes[i], src_mat));
 		}
 	}
 
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index a06a3ea..aed9736 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -3,7 +3,7 @@
 
 
 mt_mat mt_ad_add_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	if (m_childs[0] == child_node) {
+	if (m_child_index == 0) {
 		return derivative_res;
 	} else {
 		b8 is_unit_bias = sys_true;
@@ -38,7 +38,7 @@ mt_mat mt_ad_add_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 }
 
 mt_mat mt_ad_substract_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	if (m_childs[0] == child_node) {
+	if (m_child_index == 0) {
 		return derivative_res;
 	} else {
 		b8 is_unit_bias = sys_true;
@@ -73,7 +73,7 @@ mt_mat mt_ad_substract_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tre
 }
 
 mt_mat mt_ad_mul_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	if (m_childs[0] == child_node) {
+	if (m_child_index == 0) {
 		return derivative_res.mul_bias(m_childs[1]->to_mat_tree_node()->m_mat);
 	} else {
 		b8 is_unit_bias = sys_true;
@@ -110,7 +110,7 @@ mt_mat mt_ad_mul_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 }
 
 mt_mat mt_ad_div_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	if (m_childs[0] == child_node) {
+	if (m_child_index == 0) {
 		return derivative_res.div_bias(m_childs[1]->to_mat_tree_node()->m_mat);
 	} else {
 		b8 is_unit_bias = sys_true;
@@ -166,7 +166,7 @@ mt_mat mt_ad_dot_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 	constant_value.push_back(1);
 
 	for (i32 i = 0; i < (i32)m_childs.size(); ++i) {
-		if (m_childs[i] != child_node) {
+		if (i != m_child_index) {
 			if (m_childs[i]->to_mat_tree_node() != NULL) {
 				other_mats.push_back(m_childs[i]->to_mat_tree_node()->m_mat);
 			} else {
@@ -185,13 +185,13 @@ mt_mat mt_ad_dot_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 }
 
 mt_mat mt_ad_div_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	if (child_node == m_childs[0]) {
+	if (m_child_index == 0) {
 		if (m_childs[1]->to_mat_tree_node() != NULL) {
 			return derivative_res / m_childs[1]->to_mat_tree_node()->m_mat;
 		} else {
 			return derivative_res / m_childs[1]->to_const_leaf_tree_node()->m_values;
 		}
-	} else if (child_node == m_childs[1]) {
+	} else if (m_child_index == 1) {
 		if (m_childs[0]->to_mat_tree_node() != NULL) {
 			return -derivative_res * m_childs[0]->to_mat_tree_node()->m_mat / m_childs[1]->to_mat_tree_node()->m_mat.pow(2.0);
 		} else {
@@ -234,11 +234,11 @@ mt_mat mt_ad_conv_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 		basicmath_mat_release(valid_conv_sizes);
 	}
 
-	if (child_node == m_childs[0]) {
+	if (m_child_index == 0) {
 		return derivate_mat.conv(m_childs[1]->to_mat_tree_node()->m_mat.flip_all_dim(), mt_Conv_Boundary_Type_Full, mt_Conv_Kernel_Align_Type_Col);
 	}
 
-	if (child_node == m_childs[1]) {
+	if (m_child_index == 1) {
 		return m_childs[0]->to_mat_tree_node()->m_mat.flip_all_dim().conv(derivate_mat, mt_Conv_Boundary_Type_Valid, mt_Conv_Kernel_Align_Type_Cross_Row);
 	}
 
@@ -283,7 +283,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 	switch (m_loss_type) {
 	case mt_Loss_Type_Logarithmic:
 		
-		if (child_node == m_childs[0]) {
+		if (m_child_index == 0) {
 			if (derivative_res.depth() == mt_F32) {
 				return mt_ad_helper::logarithmic_loss_derivative<f32>(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
 			} else if (derivative_res.depth() == mt_F64) {
@@ -292,16 +292,16 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 				basiclog_unsupport2();
 			}
 
-		} else if (child_node == m_childs[1]) {
+		} else if (m_child_index == 1) {
 			basiclog_assert2(sys_false);
 			return mt_mat();
 		}
 
 	case mt_Loss_Type_Quadratic:
 		
-		if (child_node == m_childs[0]) {
+		if (m_child_index == 0) {
 			return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
-		} else if (child_node == m_childs[1]) {
+		} else if (m_child_index == 1) {
 			basiclog_assert2(sys_false);
 			return mt_mat();
 		}
@@ -321,7 +321,7 @@ mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_ma
 	for (i32 i = 0; i < (i32)m_childs.size(); ++i) {
 		i32 child_channel = m_childs[i]->to_mat_tree_node()->m_mat.channel();
 
-		if (m_childs[i] == child_node) {
+		if (i == m_child_index) {
 			return derivative_res.sub_channel(start_channel, start_channel + child_channel).clone();
 		}
 
-- 
2.43.0


From af9e3dd8f66e4d1904ac7a01576792b6f58af98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 069/155] fix: the derivative of a power has the exponent as a
 factor

---
 basicmath/include/mt_auto_derivative_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 4c12e0a..a29045e 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -726,7 +726,7 @@ namespace basicmath {
 		}
 
 		mt_mat derivate_child_on_operation( mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-			return derivative_res * child_node->m_mat.pow(m_number - 1);
+			return derivative_res * child_node->m_mat.pow(m_number - 1) * m_number;
 		}
 
 	protected:
-- 
2.43.0


From f22574033396aa6dfdb128e8f17dbd9234684133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 070/155] fix: the derivative of a logarithm is divided by the
 logarithm of its base

---
 basicmath/src/mt_auto_derivative_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index aed9736..6ed6c64 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -250,7 +250,7 @@ mt_mat mt_ad_log_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 	mt_mat child_derivative = 1 / child_node->m_mat;
 	
 	if (mt_helper::compare_double(m_base, mt_E) != 0) {
-		child_derivative *= log(m_base);	
+		child_derivative /= log(m_base);
 	}
 
 	return child_derivative * derivative_res;
-- 
2.43.0


From 54f1ff5e863c063c91b10ca51288910f82bb301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 071/155] fix: derivatives by matrices that no recorded
 operation uses

---
 basicmath/src/mt_auto_derivative.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index d4940f6..82cd431 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -52,7 +52,7 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 
 		mt_ad_tree_node* target_node = find_same(target);
 
-		for (i32 i = 0; i < (i32)m_nodes.size(); ++i) {
+		for (i32 i = 0; target_node != NULL && i < (i32)m_nodes.size(); ++i) {
 			if (m_nodes[i]->match(src)) {
 				m_nodes[i]->to_mat_tree_node()->add_derivative_res(mt_mat(src, 1), src);
 
-- 
2.43.0


From 222fb925e0fd42a1d378a86aa44ae6cc38b76c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 072/155] fix: derivatives of several matrices by several
 targets

---
 basicmath/src/mt_auto_derivative.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 82cd431..a441f40 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -104,7 +104,7 @@ void mt_auto_derivative::derivative(vector<mt_mat>& reses, const vector<mt_mat>&
 
 	for (i32 i = 1; i < (i32)srcs.size(); ++i) {
 		for (i32 j = 0; j < (i32)targets.size(); ++j) {
-			reses[j] += derivative(targets[i], srcs[i]);
+			reses[j] += derivative(targets[j], srcs[i]);
 		}
 	}
 }
-- 
2.43.0


From 02ba5cd9a8a7cd6840ecfce891d20fe043796e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 073/155] fix: returned derivatives do not share memory with
 the stored ones

---
 basicmath/src/mt_auto_derivative.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index a441f40..af134f0 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -60,6 +60,11 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 
 				res = target_node->to_mat_tree_node()->derivative_res(src);
 
+				if (!res.is_empty()) {
+					// the caller may modify its result, the cached mat must not change
+					res = res.clone();
+				}
+
 				break;
 			}
 		}
-- 
2.43.0


From e698a914bf61a5b320a342cbb518659a1571b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 074/155] fix: derivatives of products of a single matrix of
 several channels

---
 basicmath/src/mt_auto_derivative_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 6ed6c64..48c7dad 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -163,7 +163,7 @@ mt_mat mt_ad_dot_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 	other_mats.reserve(m_childs.size());
 
 	vector<f64> constant_value;
-	constant_value.push_back(1);
+	constant_value.resize(derivative_res.channel(), 1);
 
 	for (i32 i = 0; i < (i32)m_childs.size(); ++i) {
 		if (i != m_child_index) {
-- 
2.43.0


From 98e409f3c07934201a06835419f5b53804f1454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 075/155] fix: derivatives of losses by channel, and without
 the labels that are not numbers

---
 basicmath/include/mt_auto_derivative_tree.h | 30 +++++++++++++++++++++
 basicmath/src/mt_auto_derivative_tree.cpp   | 19 ++++++++++---
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index a29045e..ad30b00 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -969,6 +969,36 @@ namespace basicmath {
 			return res;
 		}
 
+		/** predicted_mat - matching_mat, 0 where the element of matching_mat is not a number, as in computing the loss.
+		*/
+		template<class T>
+		static mt_mat matching_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat) {
+			mt_mat res(predicted_mat, mt_mat::Construct_Type_Create_As_Size);
+
+			mt_array_element_const_iterator predicted_iter(predicted_mat);
+			mt_array_element_const_iterator matching_iter(matching_mat);
+			mt_array_element_iterator res_iter(res);
+
+			for (;;) {
+				const T* ptr_predicted = (const T*)predicted_iter.data();
+
+				if (ptr_predicted == NULL) {
+					break;
+				}
+
+				const T* ptr_matching = (const T*)matching_iter.data();
+				T* ptr_res = (T*)res_iter.data();
+
+				for (i32 c = 0; c < predicted_mat.channel(); ++c) {
+					ptr_res[c] = mt_helper::is_number(ptr_matching[c]) ? ptr_predicted[c] - ptr_matching[c] : 0;
+				}
+			}
+
+			return res;
+		}
+
+		static mt_mat matching_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat);
+
 		template<class T>
 		static mt_mat logarithmic_loss_derivative(const mt_mat& predicted_mat, const mt_mat& matching_mat) {
 			if (predicted_mat.size()[1] == 1) {
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 48c7dad..d3c7436 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -276,7 +276,9 @@ mt_mat mt_ad_activate_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 }
 
 mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	f64 loss_derivative_value = derivative_res.get(0, 0)[0];
+	vector<f64> loss_derivative_values;
+	derivative_res.get(loss_derivative_values, 0);
+	f64 loss_derivative_value = loss_derivative_values[0];
 	
 	//basiclog_info2(loss_derivative_value);
 
@@ -300,7 +302,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 	case mt_Loss_Type_Quadratic:
 		
 		if (m_child_index == 0) {
-			return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
+			return mt_ad_helper::matching_difference(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_values;
 		} else if (m_child_index == 1) {
 			basiclog_assert2(sys_false);
 			return mt_mat();
@@ -312,7 +314,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 }
 
 mt_mat mt_ad_fake_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * derivative_res.get(0, 0)[0];
+	return mt_ad_helper::matching_difference(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat) * derivative_res.get(0, 0)[0];
 }
 
 mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
@@ -348,6 +350,17 @@ mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_ma
 
 
 
+mt_mat mt_ad_helper::matching_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat) {
+	if (predicted_mat.depth() == mt_F32) {
+		return mt_ad_helper::matching_difference<f32>(predicted_mat, matching_mat);
+	} else if (predicted_mat.depth() == mt_F64) {
+		return mt_ad_helper::matching_difference<f64>(predicted_mat, matching_mat);
+	} else {
+		basiclog_unsupport2();
+		return mt_mat();
+	}
+}
+
 mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src) {
 	basiclog_assert2(src.dim() == 2);
 	basiclog_assert2(src.channel() == 1);
-- 
2.43.0


From a5a59edae650ba352d9807a59e702f138af19918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 076/155] fix: flipping one dimension is recorded for
 derivatives

---
 basicmath/src/mt_mat.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 13dc776..b506076 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2507,12 +2507,7 @@ void mt_mat::on_vaule_changed() {
 }
 
 mt_mat mt_mat::flip(int dim) const {
-	mt_mat res = *this;
-
-	res.m_data += (res.size()[dim] - 1) * res.step()[dim];
-	res.step()[dim] = -res.step()[dim];
-
-	return res;
+	return flip(1, &dim);
 }
 
 mt_mat mt_mat::flip(const vector<int>& dim_indexs) const {
-- 
2.43.0


From 37f20ff1d4213140984a4f139643cf288c06e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 077/155] fix: the derivative of softmax takes the derivatives
 of all its outputs into account

---
 basicmath/src/mt_auto_derivative_tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index d3c7436..89b3316 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -269,6 +269,10 @@ mt_mat mt_ad_activate_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 	} else {
 		if (m_activate_type == mt_Activate_Type_Linear) {
 			return derivative_res;
+		} else if (m_activate_type == mt_Activate_Type_Softmax) {
+			mt_mat weighted_sum = (derivative_res * m_mat).reduce(mt_mat::Reduce_Type_Sum, 1);
+
+			return derivative_res.substract_bias(weighted_sum) * m_mat;
 		} else {
 			return derivative_res * mt_ad_helper::activate_derivative(m_mat, m_activate_type, m_activated_params);
 		}
-- 
2.43.0


From d6da476c2cc84de07c9ef4e248b985290122212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 078/155] fix: the derivative of a division by a bias of one
 element or one row

---
 basicmath/src/mt_auto_derivative_tree.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 89b3316..36910eb 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -128,9 +128,7 @@ mt_mat mt_ad_div_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 
 		if (is_unit_bias) {
 			child_derivative = child_derivative.reduce(mt_mat::Reduce_Type_Sum);
-		}
-
-		if (child_node_mat.dim() == 2 && child_node_mat.size()[0] == 1 && child_node_mat.size()[1] == derivative_res.size()[1]) {
+		} else if (child_node_mat.dim() == 2 && child_node_mat.size()[0] == 1 && child_node_mat.size()[1] == derivative_res.size()[1]) {
 			// row bias
 			child_derivative = child_derivative.reduce(mt_mat::Reduce_Type_Sum, 0);
 		} else {
-- 
2.43.0


From 77990bb32d4acfbca2fdd4e78d4be451aacf8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 079/155] fix: sort with indexes compares every pair of
 neighbours

---
 basicmath/include/mt_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_sort.h b/basicmath/include/mt_sort.h
index 706addc..4f53117 100644
--- a/basicmath/include/mt_sort.h
+++ b/basicmath/include/mt_sort.h
@@ -16,7 +16,7 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < (i32)indexs.size() - 1; ++i) {
-				for (i32 j = 0; j < (i32)indexs.size() - j - 1; ++j) {
+				for (i32 j = 0; j < (i32)indexs.size() - i - 1; ++j) {
 					if ((increase && data[j] > data[j + 1])
 						|| (!increase && data[j] < data[j + 1])) {
 						swap(data[j], data[j + 1]);
-- 
2.43.0


From ba6298027b1cd4239c819dc421ccd96f226ccce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 080/155] fix: histograms count every value once, whatever its
 sign

---
 basicmath/src/mt_hist.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_hist.cpp b/basicmath/src/mt_hist.cpp
index babe0fd..02355a9 100644
--- a/basicmath/src/mt_hist.cpp
+++ b/basicmath/src/mt_hist.cpp
@@ -7,13 +7,14 @@
 
 void mt_hist::hist(vector<mt_range_t<f64>>& ranges, vector<i32>& numbers, const vector<f64>& data, i32 hist_bin_number) {
 	f64 max_value = mt_helper::compute_max<f64>((i32)data.size(), &data[0]);
-	max_value += max_value / 100;
+	max_value += fabs(max_value) / 100;
 
 	f64 min_value = mt_helper::compute_min<f64>((i32)data.size(), &data[0]);
 
 	f64 gap = (max_value - min_value) / hist_bin_number;
 
 	ranges.resize(hist_bin_number);
+	numbers.assign(hist_bin_number, 0);
 
 	f64 base_value = min_value;
 
@@ -25,7 +26,7 @@ void mt_hist::hist(vector<mt_range_t<f64>>& ranges, vector<i32>& numbers, const
 
 	for (i32 i = 0; i < (i32)data.size(); ++i) {
 		for (i32 j = 0; j < (i32)ranges.size(); ++j) {
-			if (data[i] >= ranges[j].m_start && data[i] < ranges[j].m_end) {
+			if (data[i] >= ranges[j].m_start && (data[i] < ranges[j].m_end || j == (i32)ranges.size() - 1)) {
 				++numbers[j];
 			}
 		}
-- 
2.43.0


From c3e7eab3e4c385bb17b39a6fef58d16158845ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 081/155] fix: odd_even_sort knows negative odd numbers

---
 basicmath/include/mt_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index b01e507..9819198 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -373,12 +373,12 @@ namespace basicmath {
 					
 					for (i32 j = 0; j < (i32)res.size() - 1 - i; ++j) {
 						if (odd_as_front) {
-							if (res[j] % 2 == 0 && res[j + 1] % 2 == 1) {
+							if (res[j] % 2 == 0 && res[j + 1] % 2 != 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
 						} else {
-							if (res[j] % 2 == 1 && res[j + 1] % 2 == 0) {
+							if (res[j] % 2 != 0 && res[j + 1] % 2 == 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
@@ -394,11 +394,11 @@ namespace basicmath {
 				i32 high = (i32)res.size() - 1;
 
 				while (low < high) {
-					while (low < high && ((odd_as_front && res[low] % 2 == 1) || (!odd_as_front && res[low] % 2 == 0))) {
+					while (low < high && ((odd_as_front && res[low] % 2 != 0) || (!odd_as_front && res[low] % 2 == 0))) {
 						++low;
 					}
 
-					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 == 1))) {
+					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 != 0))) {
 						--high;
 					}
 
-- 
2.43.0


From c7c6275ac586c842d0d9185e7b614629149ced50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 082/155] fix: common substrings may end in the first element
 of the second array; begin indexes are begins

---
 .../mt_longest_common_substring.h             | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index 8d58628..dac7008 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -19,15 +19,9 @@ namespace basicmath {
 			m_maxtrix.resize(m_a_size * m_b_size, 0);
 
 			for (i32 i = 0; i < m_a_size; ++i) {
-				m_maxtrix[i] = (str_b[0] == str_a[i] ? 1 : 0);
-
-				for (i32 j = 1; j < m_b_size; ++j) {
-					m_maxtrix[j * m_a_size] = (str_a[0] == str_b[j] ? 1 : 0);
-
-					if (i > 0 && j > 0) {
-						if (str_a[i] == str_b[j]) {
-							m_maxtrix[j * m_a_size + i] = m_maxtrix[(j - 1) * m_a_size + i - 1] + 1;
-						}
+				for (i32 j = 0; j < m_b_size; ++j) {
+					if (str_a[i] == str_b[j]) {
+						m_maxtrix[j * m_a_size + i] = (i > 0 && j > 0 ? m_maxtrix[(j - 1) * m_a_size + i - 1] : 0) + 1;
 					}
 
 					if (m_length < m_maxtrix[j * m_a_size + i]) {
@@ -55,8 +49,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i % m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i % m_a_size - m_length + 1);
 				}
 			}
 		}
@@ -65,8 +59,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i / m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i / m_a_size - m_length + 1);
 				}
 			}
 		}
-- 
2.43.0


From a765e674278263f85da1fbbb659d7e9eb16db9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 083/155] fix: split_array_to_max_mean_sub_arrays compares
 exact means and replaces both results

---
 basicmath/src/mt_helper.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index fa57be7..54847ba 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -288,25 +288,25 @@ void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b
 	vector<i32> data = input_data;
 	sort(data.begin(), data.end());
 
-	i32 left_sum = 0;
-	f32 max_sub = -FLT_MAX;
+	i64 left_sum = 0;
+	f64 max_sub = -DBL_MAX;
 	i32 split_index = -1;
 
-	a.resize(data.size());
+	vector<f64> right_means(data.size());
 
-	i32 right_sum = 0;
+	i64 right_sum = 0;
 
 	for (i32 i = (i32)data.size() - 1; i >= 0; --i) {
 		right_sum += data[i];
 
-		a[i] = right_sum / ((i32)data.size()  - i);
+		right_means[i] = right_sum / (f64)((i32)data.size()  - i);
 	}
 
 	for (i32 i = 0; i < (i32)data.size() - 1; ++i) {
 		left_sum += data[i];
 
-		i32 right_mean = a[i + 1];
-		f32 left_mean = left_sum / (f32)(i + 1);
+		f64 right_mean = right_means[i + 1];
+		f64 left_mean = left_sum / (f64)(i + 1);
 
 		if (right_mean - left_mean > max_sub) {
 			max_sub = right_mean - left_mean;
@@ -315,6 +315,7 @@ void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b
 		}
 	}
 
+	b.clear();
 	b.reserve(split_index + 1);
 
 	for (i32 i = 0; i <= split_index; ++i) {
-- 
2.43.0


From 8a8357c728f0a6b12dac20e48724616c0f68cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 084/155] fix: compare_value orders unsigned and distant
 integers

---
 basicmath/include/mt_helper.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 9819198..20cdf09 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -62,11 +62,9 @@ namespace basicmath {
 			} else if (typeid(T) == typeid(double)) {
 				return compare_double((double)a, (double)b);
 			} else {
-				T v = a - b;
-
-				if (v == 0) {
+				if (a == b) {
 					return 0;
-				} else if (v > 0) {
+				} else if (a > b) {
 					return 1;
 				} else {
 					return -1;
-- 
2.43.0


From 4758d47c8718bd24cc2fa35a3406b96e50dc2902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 085/155] fix: equal infinities compare as equal

---
 basicmath/src/mt_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index 54847ba..dac5e80 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -38,7 +38,7 @@ double mt_helper::get_double_eps() {
 int mt_helper::compare_float(float a, float b) {
 	float value = a - b;
 
-	if (abs(value) < mt_float_eps) {
+	if (a == b || abs(value) < mt_float_eps) {
 		return 0;
 	}
 
@@ -58,7 +58,7 @@ int mt_helper::compare_float(float a, float b) {
 int mt_helper::compare_double(double a, double b) {
 	double value = a - b;
 
-	if (abs(value) < mt_double_eps) {
+	if (a == b || abs(value) < mt_double_eps) {
 		return 0;
 	}
 
-- 
2.43.0


From 64865937c6b088429824024a2766ed9f2b44b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 086/155] fix: combinations do not overflow while they fit 32
 bits

---
 basicmath/include/mt_helper.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 20cdf09..11568ed 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -253,7 +253,17 @@ namespace basicmath {
 
 		static i32 combination(i32 n, i32 k) {
 			basiclog_assert2(n >= k);
-			return factorial(n) / (factorial(k) * factorial(n - k));
+			
+			if (k > n - k) {
+				k = n - k;
+			}
+
+			i64 res = 1;
+			for (i32 i = 1; i <= k; ++i) {
+				res = res * (n - k + i) / i;
+			}
+
+			return (i32)res;
 		}
 
 		template<class T>
-- 
2.43.0


From 24285cce1f40daaee8f94390bc358e284f8ed203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 087/155] fix: flip_vector swaps each element with its opposite

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 11568ed..c0c66f1 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -428,7 +428,7 @@ namespace basicmath {
 			i32 half_size = (i32)data.size()  / 2;
 			
 			for (i32 i = 0; i < half_size; ++i) {
-				swap(data[i], data[i + (i32)data.size() - i - 1]);
+				swap(data[i], data[(i32)data.size() - i - 1]);
 			}
 		}
 
-- 
2.43.0


From 6572d850e90b41f7d01822f76db844487dc4dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 088/155] fix: instance_from_pointer copies every element

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index c0c66f1..51b753b 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -364,7 +364,7 @@ namespace basicmath {
 
 		template<class T>
 		static void instance_from_pointer(vector<T>& res, const vector<T*>& src) {
-			res.resize(res.size());
+			res.resize(src.size());
 
 			for (int i = 0; i < (int)res.size(); ++i) {
 				res[i] = *src[i];
-- 
2.43.0


From 94259e36e64d0fa5fd75bb30916d3b17220199f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 089/155] fix: the flags of a bag are elements that fit it and
 have its value

---
 .../include/dynamic_programming/mt_01_bag.h   | 30 ++++---------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_01_bag.h b/basicmath/include/dynamic_programming/mt_01_bag.h
index 0a4bcc6..6fcf654 100644
--- a/basicmath/include/dynamic_programming/mt_01_bag.h
+++ b/basicmath/include/dynamic_programming/mt_01_bag.h
@@ -17,7 +17,7 @@ namespace basicmath {
 
 			m_max_value = calculate_value(weights, values, (i32)weights.size() - 1, max_weight);
 
-			detrermine_flag(values, (i32)weights.size() - 1, m_max_value);
+			detrermine_flag(weights, values, (i32)weights.size() - 1, max_weight);
 		}
 
 		T_Value max_value() {
@@ -81,33 +81,15 @@ namespace basicmath {
 			return cur_cache_info.m_value;
 		}
 
-		void detrermine_flag(const vector<T_Value>& values, i32 considered_range, T_Value considered_value) {
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0
-					&& m_caches[i].m_considered_range <= considered_range 
-					&& find_value(considered_range - 1, considered_value - values[m_caches[i].m_considered_range])) {
-						m_flags[m_caches[i].m_considered_range] = sys_true;
-
-						detrermine_flag(values, considered_range - 1, considered_value - values[m_caches[i].m_considered_range]);
+		void detrermine_flag(const vector<T_Weight>& weights, const vector<T_Value>& values, i32 considered_range, T_Weight considered_weight) {
+			for (i32 i = considered_range; i >= 0; --i) {
+				if (mt_helper::compare_value(calculate_value(weights, values, i, considered_weight), calculate_value(weights, values, i - 1, considered_weight)) != 0) {
+					m_flags[i] = sys_true;
+					considered_weight -= weights[i];
 				}
 			}
 		}
 
-		b8 find_value(i32 considered_range, T_Value considered_value) {
-			if (considered_range < 0) {
-				return sys_true;
-			}
-
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (m_caches[i].m_considered_range <= considered_range
-					&& mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0) {
-						return sys_true;
-				}
-			}
-
-			return sys_false;
-		}
-
 		vector<cache_info> m_caches;
 		T_Value m_max_value;
 		vector<b8> m_flags;
-- 
2.43.0


From b4e562cc74d7cda984f06bd506c1cdfba949b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 090/155] fix: block memory of single elements can be
 initialised, also after clear

---
 basicmath/include/mt_block_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 470c3ac..91e0a4d 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -108,7 +108,7 @@ namespace basicmath {
 		void init(i32 block_size_2_base, b8 use_new = sys_false, i32 max_reuse = 0) {
 			basiclog_assert2(block_size_2_base >= 0);
 
-			if (block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
+			if (!m_datas.empty() && block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
 				m_cur_block = 0;
 				m_cur_data = m_datas.front();
 				m_cur_block_end = m_cur_data + m_block_size;
-- 
2.43.0


From bad6fe8b99ba58bb9c73db4620cbd27146d06b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 091/155] fix: in_block knows the elements of every block

---
 basicmath/include/mt_block_memory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 91e0a4d..5e4fe85 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -172,7 +172,7 @@ namespace basicmath {
 		}
 
 		b8 in_block(T* data) const {
-			if (m_cur_block == -1 || data < m_begin || data >= m_cur_data) {
+			if (m_cur_block == -1) {
 				return sys_false;
 			}
 
@@ -182,11 +182,11 @@ namespace basicmath {
 
 			for (i32 i = 0; i < m_cur_block; ++i) {
 				if (data >= m_datas[i] && data < m_datas[i] + m_block_size) {
-					return sys_false;
+					return sys_true;
 				}
 			}
 
-			return sys_true;
+			return sys_false;
 		}
 
 		u64 memory_size() {
-- 
2.43.0


From a4eaad3224889187d05037e345fb46b07b16d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 092/155] fix: threads have ids of their own outside of windows
 too

---
 basicsys/src/sys_os.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_os.cpp b/basicsys/src/sys_os.cpp
index 80bf05a..7732c3d 100644
--- a/basicsys/src/sys_os.cpp
+++ b/basicsys/src/sys_os.cpp
@@ -5,6 +5,7 @@
 #if defined _WIN32
 #include <windows.h>
 #else
+#include <pthread.h>
 #endif // DEBUG
 
 
@@ -16,6 +17,6 @@ u64 sys_os::current_thread_id() {
 #if defined _WIN32
 	return GetCurrentThreadId();
 #else
-	return 0;
+	return (u64)(size_t)pthread_self();
 #endif // DEBUG
 }
\ No newline at end of file
-- 
2.43.0


From 012a519955502d316c890e88ea1290c650f67c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 093/155] fix: the matrix cache is locked while it is used

---
 basicmath/src/mt_mat_cache.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index 99c500b..c1cee1f 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -19,6 +19,7 @@ mt_auto_mat_cache::~mt_auto_mat_cache() {
 mt_mat_cache::mt_mat_cache() {
 	m_mutex = sys_thread_lock::create_mutex();
 	m_memory_size = 1024 * 1024 * 1024;
+	m_get_number = 0;
 	m_cache_number = 0;
 }
 
@@ -28,7 +29,7 @@ mt_mat_cache::~mt_mat_cache() {
 
 void mt_mat_cache::set_memory_size(i64 memory_size) {
 	{
-		sys_thread_lock (s_mat_cache.m_mutex);
+		sys_thread_lock lock(s_mat_cache.m_mutex);
 		s_mat_cache.m_memory_size = memory_size;
 
 		s_mat_cache.statistic_memory();
@@ -45,7 +46,7 @@ void mt_mat_cache::output_cache_statistic() {
 
 void mt_mat_cache::enable_cache(b8 enable) {
 	{
-		sys_thread_lock (s_mat_cache.m_mutex);
+		sys_thread_lock lock(s_mat_cache.m_mutex);
 		map<u64, thread_data>::iterator td = s_mat_cache.m_thread_data.find(sys_os::current_thread_id());
 
 		if (td == s_mat_cache.m_thread_data.end()) {
@@ -77,10 +78,10 @@ mt_mat mt_mat_cache::get(const vector<i32>& sizes, mt_Depth_Channel depth_channe
 
 mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_channel) {
 	thread_data* data = NULL;
-	
-	{
-		sys_thread_lock lock(m_mutex);
 
+	sys_thread_lock lock(m_mutex);
+
+	{
 		++m_get_number;
 
 		map<u64, thread_data>::iterator td = m_thread_data.find(sys_os::current_thread_id());
-- 
2.43.0


From 50d7c7a3bf64db9eeebe132d7c0a547f95be4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 094/155] fix: the methods of rectangles name members that
 exist

---
 basicmath/include/mt_rect_t.h | 98 +++++++++++++++++------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index d2115ba..a64d79d 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -47,35 +47,35 @@ public:
 	}
 
 	mt_rect_t<T> operator+(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width + other.width, m_height + other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width + other.m_width, m_height + other.m_height);
 	}
 
 	void operator+=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left += other.m_x;
+		m_top += other.m_y;
 	}
 
 	void operator-=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left += other.m_x;
+		m_top += other.m_y;
 	}
 
 	void operator+=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width += other.m_width;
+		m_height += other.m_height;
 	}
 
 	void operator-=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width += other.m_width;
+		m_height += other.m_height;
 	}
 
 	mt_rect_t<T> operator-(const mt_point_t<T>& other) const {
-		return mt_rect_t<T>(m_left - other.x, m_top - other.y, m_width, m_height);
+		return mt_rect_t<T>(m_left - other.m_x, m_top - other.m_y, m_width, m_height);
 	}
 
 	mt_rect_t<T> operator-(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width - other.width, m_height - other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width - other.m_width, m_height - other.m_height);
 	}
 
 	mt_rect_t(const mt_point_t<T>& left_top, const mt_size_t<T>& size) {
@@ -170,13 +170,13 @@ public:
 		currentNormlized.normlized();
 		otherNormlized.normlized();
 
-		int left = max(currentNormlized.mLeft, otherNormlized.mLeft);		
-		int right = min(currentNormlized.right(), otherNormlized.right());
-		int top = max(currentNormlized.mTop, otherNormlized.mTop);
-		int bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
-		intersectRect.setRect(mt_point(left, top), mt_point(right, bottom));
+		T left = max(currentNormlized.m_left, otherNormlized.m_left);		
+		T right = min(currentNormlized.right(), otherNormlized.right());
+		T top = max(currentNormlized.m_top, otherNormlized.m_top);
+		T bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
+		intersectRect.set_rect(mt_point_t<T>(left, top), mt_point_t<T>(right, bottom));
 
-		return (intersectRect.mWidth > 0) && (intersectRect.mHeight > 0);
+		return (intersectRect.m_width > 0) && (intersectRect.m_height > 0);
 	}
 
 	bool is_intersect(const mt_rect_t<T>& rect) const {
@@ -185,19 +185,19 @@ public:
 	}
 
 	bool contain(const mt_point_t<T>& point) const {
-		if (point.x < m_left) {
+		if (point.m_x < m_left) {
 			return false;
 		}
 
-		if (point.y < m_top) {
+		if (point.m_y < m_top) {
 			return false;
 		}
 
-		if (point.x > right()) {
+		if (point.m_x > right()) {
 			return false;
 		}
 
-		if (point.y > bottom()) {
+		if (point.m_y > bottom()) {
 			return false;
 		}
 
@@ -205,19 +205,19 @@ public:
 	}
 
 	bool boundary(const mt_point_t<T>& point) const {
-		if (point.x == m_left && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == m_left && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.x == right() && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == right() && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.y == m_top && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == m_top && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
-		if (point.y == bottom() && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == bottom() && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
@@ -229,7 +229,7 @@ public:
 	}
 	
 	bool in_boundary(const mt_point_t<T>& point) const {
-		return point.x == m_left || point.y == m_top || point.x == m_left + m_width - 1 || point.y == m_top + m_height - 1;
+		return point.m_x == m_left || point.m_y == m_top || point.m_x == m_left + m_width - 1 || point.m_y == m_top + m_height - 1;
 	}
 
 	bool is_intersect_area(const mt_rect_t<T>& r2, double threshold) const {
@@ -265,7 +265,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth >= threshold; 
+		return intersectRect.m_width / (double)r2.m_width >= threshold; 
 	}
 
 	double get_intersect_width_ratio(const mt_rect_t<T>& r2) const {
@@ -274,7 +274,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth; 
+		return intersectRect.m_width / (double)r2.m_width; 
 	}
 
 	bool is_intersect_height(const mt_rect_t<T>& r2, double threshold) const {
@@ -283,7 +283,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight >= threshold; 
+		return intersectRect.m_height / (double)r2.m_height >= threshold; 
 	}
 
 	double get_intersect_height_ratio(const mt_rect_t<T>& r2) const {
@@ -292,7 +292,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight; 
+		return intersectRect.m_height / (double)r2.m_height; 
 	}
 
 	/**
@@ -373,20 +373,20 @@ public:
 	}
 
 	void validate_point(mt_point_t<T>& pt) const{
-		if (pt.x < m_left) {
-			pt.x = m_left;
+		if (pt.m_x < m_left) {
+			pt.m_x = m_left;
 		}
 
-		if (pt.x > right()) {
-			pt.x = right();
+		if (pt.m_x > right()) {
+			pt.m_x = right();
 		}
 
-		if (pt.y < m_top) {
-			pt.y = m_top;
+		if (pt.m_y < m_top) {
+			pt.m_y = m_top;
 		}
 
-		if (pt.y > bottom()) {
-			pt.y = bottom();
+		if (pt.m_y > bottom()) {
+			pt.m_y = bottom();
 		}
 	}
 
@@ -397,7 +397,7 @@ public:
 		validate_point(tlPoint);
 		validate_point(brPoint);
 
-		rect.setRect(tlPoint, brPoint);
+		rect.set_rect(tlPoint, brPoint);
 	}
 
 	double aspect() const {
@@ -465,7 +465,7 @@ public:
 		mt_rect_t<T> top;
 		mt_rect_t<T> bottom;
 
-		if (m_top < other.mTop) {
+		if (m_top < other.m_top) {
 			top = *this;
 			bottom = other;
 		} else {
@@ -473,7 +473,7 @@ public:
 			bottom = *this;
 		}
 
-		T distance = bottom.mTop - top.bottom();
+		T distance = bottom.m_top - top.bottom();
 
 		if (distance < 0) {
 			distance = 0;
@@ -498,10 +498,10 @@ public:
 	
 	mt_rect_t<T> operator*(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left * v.m_x);
-		res.mTop = (T)(m_top * v.m_y);
-		res.mWidth = (T)(m_width * v.m_x);
-		res.mHeight = (T)(m_height * v.m_y);
+		res.m_left = (T)(m_left * v.m_x);
+		res.m_top = (T)(m_top * v.m_y);
+		res.m_width = (T)(m_width * v.m_x);
+		res.m_height = (T)(m_height * v.m_y);
 
 		return res;
 	}
@@ -515,10 +515,10 @@ public:
 
 	mt_rect_t<T> operator/(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left / v.m_x);
-		res.mTop = (T)(m_top / v.m_y);
-		res.mWidth = (T)(m_width / v.m_x);
-		res.mHeight = (T)(m_height / v.m_y);
+		res.m_left = (T)(m_left / v.m_x);
+		res.m_top = (T)(m_top / v.m_y);
+		res.m_width = (T)(m_width / v.m_x);
+		res.m_height = (T)(m_height / v.m_y);
 
 		return res;
 	}
-- 
2.43.0


From 3eff77966b0a1209412459d6a5670d745d0a5894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 095/155] fix: rectangles minus a point or a size

---
 basicmath/include/mt_rect_t.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index a64d79d..cc1682b 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -56,8 +56,8 @@ public:
 	}
 
 	void operator-=(const mt_point_t<T>& other) {
-		m_left += other.m_x;
-		m_top += other.m_y;
+		m_left -= other.m_x;
+		m_top -= other.m_y;
 	}
 
 	void operator+=(const mt_size_t<T>& other) {
@@ -66,8 +66,8 @@ public:
 	}
 
 	void operator-=(const mt_size_t<T>& other) {
-		m_width += other.m_width;
-		m_height += other.m_height;
+		m_width -= other.m_width;
+		m_height -= other.m_height;
 	}
 
 	mt_rect_t<T> operator-(const mt_point_t<T>& other) const {
-- 
2.43.0


From 39c607d5fc598e771a6f866fbfcdd05bac48b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 096/155] fix: linear_position counts the rows two rectangles
 share

---
 basicmath/include/mt_rect_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index cc1682b..ff0a9c9 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -483,7 +483,7 @@ public:
 	}
 
 	bool linear_position(const mt_rect_t& other, double high_threshold = 0.75, double low_threshold = 0.45) const {
-		T height = min(bottom(), other.bottom()) - max(m_top, other.m_top);
+		T height = min(bottom(), other.bottom()) - max(m_top, other.m_top) + 1;
 		T min_height = m_height;
 		T max_height = other.m_height;
 
-- 
2.43.0


From 7e83881fb88c7c9c82f1f51bbb685b894f46aca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 097/155] fix: random integers do not overflow where RAND_MAX
 is the largest integer

---
 basicmath/src/mt_random.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 709fc1e..03e72f5 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -8,8 +8,8 @@ void mt_random::set_seed(u32 seed) {
 }
 
 i32 mt_random::random_next_i32(i32 min, i32 max) {
-	f64 value = rand() / (f64)(RAND_MAX + 1);	//[0,1)
-	return (i32)(value * (max - min + 1)) + min;
+	f64 value = rand() / (RAND_MAX + 1.0);	//[0,1)
+	return (i32)((i64)(value * ((f64)max - min + 1)) + min);
 }
 
 f64 mt_random::random_uniform(f64 min, b8 min_opened, f64 max, b8 max_opened) {
-- 
2.43.0


From 629b2ac604a983ee6034376b8327f4797abbcee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 098/155] fix: randperm follows the seed

---
 basicmath/src/mt_random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 03e72f5..1d1f43e 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -75,7 +75,9 @@ void mt_random::randperm(vector<i32>& results, i32 size) {
 		results[i] = i;
 	}
 
-	random_shuffle(results.begin(), results.end());
+	for (i32 i = (i32)results.size() - 1; i > 0; --i) {
+		swap(results[i], results[random_next_i32(0, i)]);
+	}
 }
 
 void mt_random::randSample(i32 size, vector<i32>& results) {
-- 
2.43.0


From a4ad4e3228dd969c3d271d70be42efb9b817b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 099/155] fix: bernoulli_iid releases its values

---
 basicmath/src/mt_random.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 1d1f43e..df388b0 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -162,6 +162,8 @@ mt_mat mt_random::bernoulli_iid(i32 dims, const i32* sizes, mt_Depth_Channel dep
 		mat.set(random_values, dims, &iter.position()[0]);
 	}
 
+	basicmath_mat_release(random_values);
+
 	return mat;
 }
 
-- 
2.43.0


From fad030a3774657ea1ecc0a71e00ba7d340cf4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 100/155] fix: open ends of uniform intervals stay open for
 large bounds

---
 basicmath/src/mt_random.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index df388b0..1568a12 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -13,15 +13,17 @@ i32 mt_random::random_next_i32(i32 min, i32 max) {
 }
 
 f64 mt_random::random_uniform(f64 min, b8 min_opened, f64 max, b8 max_opened) {
-	if (min_opened) {
-		min += DBL_EPSILON;
+	f64 value = rand() / (f64)RAND_MAX * (max - min) + min;
+
+	if (value <= min) {
+		value = min_opened ? nextafter(min, max) : min;
 	}
 
-	if (max_opened) {
-		max -= DBL_EPSILON;
+	if (value >= max) {
+		value = max_opened ? nextafter(max, min) : max;
 	}
 
-	return rand() / (f64)RAND_MAX * (max - min) + min;
+	return value;
 }
 
 mt_mat mt_random::random_uniform_iid(i32 rows, i32 cols, mt_Depth_Channel depth_channel, f64 min /* = 0.0 */, b8 min_opened /* = sys_true */, f64 max /* = 1.0 */, b8 max_opened /* = sys_true */) {
-- 
2.43.0


From 5f9ce8e1bada288fb9758db87ef6babfd8c14028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 101/155] fix: files are listed by the end of their name

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index d93ac39..269ac87 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -91,7 +91,7 @@ void sys_path::get_file_path(vector<string>& filePaths, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0) {
 			continue;
 		}
 
@@ -163,7 +163,7 @@ void sys_path::get_file_name(vector<string>& fileNames, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0) {
 			continue;
 		}
 
-- 
2.43.0


From 4f758b8e3ad11d8fd8ccf7b4939b8aefc92016e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 102/155] fix: the extension of a file is looked for in its
 name only

---
 basicsys/src/sys_path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 269ac87..f50250b 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -286,10 +286,11 @@ string sys_path::get_file_extend_name(const string& path) {
 		return string((""));
 	}
 
-	string::size_type index = path.rfind('.');
+	string file_name = get_file_name(path);
+	string::size_type index = file_name.rfind('.');
 
 	if (string::npos != index) {
-		string extend_name = path.substr(index);
+		string extend_name = file_name.substr(index);
 		sys_strhelper::lower(extend_name);
 		return extend_name;
 	} else {
-- 
2.43.0


From e11359ee6b858f83e6680d8d0715dad70271cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 103/155] fix: directories with long paths are created

---
 basicsys/src/sys_path.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index f50250b..73a1a0a 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -322,18 +322,16 @@ bool sys_path::create_multi_dir(const string& dir) {
 	if (_access(dir.c_str(), 0) == 0)
 		return true;
 
-	char szTemp[1024] = {('\0')};
 	string::size_type nPos = dir.find(('/'));
 	while (string::npos != nPos)
 	{
-		strncpy_s(szTemp, 1024, dir.c_str(), nPos + 1);
-		szTemp[nPos + 1] = '\0';
-		if (_access(szTemp, 00) == -1) {
+		string temp = dir.substr(0, nPos + 1);
+		if (_access(temp.c_str(), 00) == -1) {
 #ifdef _WIN32
-			if (!CreateDirectoryA(szTemp, NULL))
+			if (!CreateDirectoryA(temp.c_str(), NULL))
 				return false;
 #else
-			if (mkdir(szTemp, 0000777) != 0)
+			if (mkdir(temp.c_str(), 0000777) != 0)
 				return false;
 #endif
 		}
-- 
2.43.0


From 48f3345b2c044d86f09fd5ef83be70c9f4abad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 104/155] fix: deleting a directory deletes its sub directories

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 73a1a0a..b9b3e63 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -393,8 +393,8 @@ void sys_path::delete_sub_dir(const string& dir) {
 	vector<string> subDirs;
 	get_dir_path(subDirs, dir);
 
-	for (int i = 0; i < (int)subFiles.size(); ++i) {
-		delete_dir(subFiles[i], true);
+	for (int i = 0; i < (int)subDirs.size(); ++i) {
+		delete_dir(subDirs[i], true);
 	}
 }
 
-- 
2.43.0


From 3633f0ed055b6575b4ca0f7535455ba238f94682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 105/155] fix: copy_file keeps an existing file when asked to
 and takes paths literally

---
 basicsys/src/sys_path.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index b9b3e63..fca62e5 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -428,7 +428,17 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 #ifdef _WIN32
 	return ::CopyFileA(src.c_str(), dst.c_str(), fail_if_exist) == TRUE;
 #else
-	return system(((string)(sys_strcombine()<<"cp -r "<<src.c_str()<<" "<<dst.c_str())).c_str()) == 0;
+	if (fail_if_exist && is_exist(dst)) {
+		return false;
+	}
+
+	//Quote the paths for the shell
+	string quoted_src = src;
+	string quoted_dst = dst;
+	sys_strhelper::replace(quoted_src, "'\\''", "'");
+	sys_strhelper::replace(quoted_dst, "'\\''", "'");
+
+	return system(((string)(sys_strcombine()<<"cp -r -- '"<<quoted_src.c_str()<<"' '"<<quoted_dst.c_str()<<"'")).c_str()) == 0;
 #endif
 }
 
-- 
2.43.0


From 351e5cf4e756840e886504e72413c4e0c1ede3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 106/155] fix: move_file replaces an existing file when it is
 allowed to

---
 basicsys/src/sys_path.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index fca62e5..806561d 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -443,9 +443,13 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 }
 
 bool sys_path::move_file(const string& dst, const string& src, bool fail_if_exist) {
-	if (is_exist(dst)) {
+	if (fail_if_exist && is_exist(dst)) {
 		return false;
 	}
 
+#ifdef _WIN32
+	return MoveFileExA(src.c_str(), dst.c_str(), MOVEFILE_COPY_ALLOWED | MOVEFILE_REPLACE_EXISTING) != 0;
+#else
 	return rename(src.c_str(), dst.c_str()) == 0;
+#endif
 }
\ No newline at end of file
-- 
2.43.0


From 93b846e81646bb628f195d7f77ec6a3e36dbde05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 107/155] fix: a file logger writes to its directory from the
 start

---
 basiclog/src/basiclog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 1701c16..3ced9d6 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -199,6 +199,7 @@ log_file_logger::log_file_logger(const string& dir, int file_max_log_number /* =
 		m_cur_file = NULL;
 		m_cur_file_log_number = 0;
 
+		m_save_dir = dir;
 		sys_path::create_multi_dir(m_save_dir);
 }
 
-- 
2.43.0


From 8270f595f3d121957eb9d141cfb117528fb0644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 108/155] fix: log files opened within one second do not
 overwrite each other

---
 basiclog/src/basiclog.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 3ced9d6..6068d37 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -241,7 +241,14 @@ void log_file_logger::print(const string& log_info) {
 			m_list_files.pop_front();
 		}
 
-		m_list_files.push_back(m_save_dir + generate_new_file_title() + ".txt");
+		string file_title = m_save_dir + generate_new_file_title();
+		string file_path = file_title + ".txt";
+
+		for (i32 i = 1; sys_path::is_exist(file_path); ++i) {
+			file_path = sys_strcombine()<<file_title<<" ("<<i<<").txt";
+		}
+
+		m_list_files.push_back(file_path);
 
 		if (m_cur_file != NULL) {
 			fclose(m_cur_file);
-- 
2.43.0


From 7cb84bb4469d53f827cf0e51fa227769a98e5ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 109/155] fix: lowering the limits of a file logger takes
 effect

---
 basiclog/src/basiclog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 6068d37..6508db0 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -235,8 +235,8 @@ void log_file_logger::set_max_file_number(int max_number) {
 }
 
 void log_file_logger::print(const string& log_info) {
-	if (NULL == m_cur_file || m_cur_file_log_number == m_file_max_log_number) {
-		if ((int)m_list_files.size() == m_max_file_number) {
+	if (NULL == m_cur_file || m_cur_file_log_number >= m_file_max_log_number) {
+		while (!m_list_files.empty() && (int)m_list_files.size() >= m_max_file_number) {
 			remove(m_list_files.front().c_str());
 			m_list_files.pop_front();
 		}
-- 
2.43.0


From fd249749ce4142fbc667284cab46d2cbb0fceeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 110/155] fix: a file logger whose file cannot be opened drops
 the log instead of crashing

---
 basiclog/src/basiclog.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 6508db0..ecaf7e7 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -258,6 +258,11 @@ void log_file_logger::print(const string& log_info) {
 		m_cur_file_log_number = 0;
 	}
 	
+	if (NULL == m_cur_file) {
+		m_list_files.pop_back();
+		return;
+	}
+
 	fprintf(m_cur_file, "%s", sys_strconvert::utf8_from_local(log_info).c_str());
 	fflush(m_cur_file);
 	++m_cur_file_log_number;
-- 
2.43.0


From e2837a953292bd8a0bdbea1aef4ecbdb79a02e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 111/155] fix: add_filter of the loggers is defined

---
 basiclog/src/basiclog.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index ecaf7e7..3011865 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -60,6 +60,11 @@ void log_logger::set_filter(const std::vector<string>& filters) {
 	m_filters = filters;
 }
 
+void log_logger::add_filter(const string& filter) {
+	sys_thread_lock lock(m_mutex);
+	m_filters.push_back(filter);
+}
+
 void log_logger::get_filter(vector<string>& filters) {
 	sys_thread_lock lock(m_mutex);
 	filters = m_filters;
-- 
2.43.0


From 68f469ed1efa8ae7068d8beb359d480328439e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 112/155] fix: copies of a connected component own their points
 and keep the rectangle

---
 basicimg/include/img_connected_component.h |  2 ++
 basicimg/src/img_connected_component.cpp   | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 58d35fb..327f4b6 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -101,6 +101,8 @@ namespace basicimg {
 
 		img_connected_component();
 
+		img_connected_component(const img_connected_component& other);
+
 		~img_connected_component();
 
 		void operator = (const img_connected_component& other);
diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 0eb2242..ae484af 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -33,6 +33,13 @@ img_connected_component::img_connected_component()
 
 }
 
+img_connected_component::img_connected_component(const img_connected_component& other)
+	: m_points(NULL)
+	, m_size(0)
+	, m_share_memory(sys_false) {
+	*this = other;
+}
+
 img_connected_component::~img_connected_component() {
 	release();
 }
@@ -44,6 +51,7 @@ void img_connected_component::operator = (const img_connected_component& other)
 
 	release();
 	m_share_memory = other.m_share_memory;
+	m_rect = other.m_rect;
 
 	if (other.m_share_memory) {
 		m_points = other.m_points;
@@ -51,7 +59,7 @@ void img_connected_component::operator = (const img_connected_component& other)
 
 	} else {
 		m_size = other.m_size;
-		m_points = new mt_point[m_size];
+		m_points = other.m_points == NULL ? NULL : new mt_point[m_size];
 
 		for (i32 i = 0; i < m_size; ++i) {
 			m_points[i] = other.m_points[i];
@@ -63,6 +71,10 @@ void img_connected_component::release() {
 	if (!m_share_memory && m_points != NULL) {
 		delete[] m_points;
 	}
+
+	m_points = NULL;
+	m_size = 0;
+	m_share_memory = sys_false;
 }
 
 void img_connected_component::init(i32 size) {
-- 
2.43.0


From 2d6800b5e8ea0e5ae2c57cd3fd6a7faf4c7bb6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 113/155] fix: copies of connected components own their points

---
 basicimg/include/img_connected_component.h | 33 ++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 327f4b6..977ead3 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -126,10 +126,43 @@ namespace basicimg {
 			m_cache_points = NULL;
 		}
 
+		img_multi_connected_components(const img_multi_connected_components& other) {
+			m_cache_points = NULL;
+			*this = other;
+		}
+
 		~img_multi_connected_components() {
 			basicsys_delete_array(m_cache_points);
 		}
 
+		void operator = (const img_multi_connected_components& other) {
+			if (this == &other) {
+				return;
+			}
+
+			i32 size = 0;
+
+			for (i32 i = 0; i < (i32)other.m_ccs.size(); ++i) {
+				size += other.m_ccs[i].m_size;
+			}
+
+			m_ccs.clear();
+			basicsys_delete_array(m_cache_points);
+			m_cache_points = new mt_point[size];
+			m_ccs.resize(other.m_ccs.size());
+
+			mt_point* points = m_cache_points;
+
+			for (i32 i = 0; i < (i32)m_ccs.size(); ++i) {
+				m_ccs[i].init(points, other.m_ccs[i].m_size);
+				m_ccs[i].m_rect = other.m_ccs[i].m_rect;
+
+				for (i32 j = 0; j < m_ccs[i].m_size; ++j) {
+					*points++ = other.m_ccs[i].m_points[j];
+				}
+			}
+		}
+
 		vector<img_connected_component> m_ccs;
 		mt_point* m_cache_points;
 	};
-- 
2.43.0


From 3a92d1bedbc8e0e3d5cba269c125f65f2add541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 114/155] fix: extracting into used connected components
 forgets the old ones

---
 basicimg/include/img_connected_component.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 977ead3..d0c32cd 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -637,8 +637,11 @@ namespace basicimg {
 				preInfo.m_regions.pop_back();
 			}
 
+			ccs.m_ccs.clear();
+			basicsys_delete_array(ccs.m_cache_points);
+			ccs.m_cache_points = preInfo.m_cache_points;
+
 			if (!preInfo.m_regions.empty()) {
-				ccs.m_cache_points = preInfo.m_cache_points;
 				ccs.m_ccs.resize(preInfo.m_regions.size());
 
 				for (i32 i = 0; i < (i32)preInfo.m_regions.size(); ++i) {
-- 
2.43.0


From 2126b287f91a712224a2371d62b72944f6eb8f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 115/155] fix: images without unmasked pixels have no connected
 components

---
 basicimg/include/img_connected_component.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index d0c32cd..a255883 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -481,6 +481,11 @@ namespace basicimg {
 						maskData += maskOffset;
 					}
 
+					if (rowMin > rowMax || colMin > colMax) {
+						//There is no unmasked pixel
+						rowMin = rowMax = colMin = colMax = 0;
+					}
+
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
@@ -559,6 +564,11 @@ namespace basicimg {
 						image_data += srcByteOffset;
 					}
 
+					if (rowMin > rowMax || colMin > colMax) {
+						//There is no unmasked pixel
+						rowMin = rowMax = colMin = colMax = 0;
+					}
+
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
-- 
2.43.0


From 6b4ddaa5ddd3c282469f372af1746ff2eb3f7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 116/155] fix: connected components under a mask image end at
 its bottom and follow its rows

---
 basicimg/include/img_connected_component.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index a255883..0239302 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -500,6 +500,7 @@ namespace basicimg {
 
 					//��λ��Ч��������ĵ�һ������
 					const T* rawData = src.ptr<T>(rowMin, colMin);
+					i32 maskAppendOffset = (i32)maskInfo.m_mask_image.step()[0] - targetImageSize.m_width;
 					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
@@ -535,9 +536,14 @@ namespace basicimg {
 						data->m_visit_flag = 1;
 						++data;
 						data += temp_image_append_offset;
-						maskData += rawImageAppendOffset;
+						maskData += maskAppendOffset;
 						rawData += rawImageAppendOffset;
 					}
+
+					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
+						data->m_visit_flag = 1;
+						++data;
+					}
 				} else if (img_Mask_Type_Value == maskInfo.m_mask_type) {
 					i32 srcByteOffset = (i32)src.step()[0] / sizeof(T) - src.size()[1];
 
-- 
2.43.0


From c377a785ec1b5ecc7b2c90277a06e61c007e3e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 117/155] fix: the extraction of a single connected component
 returns it

---
 basicimg/include/img_connected_component.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 0239302..d6b5807 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -93,7 +93,7 @@
 	}	\
 	currentRegion->m_y = preInfo.m_cache_point_index;	\
 	single_extract_stop(cc, preInfo);\
-	delete preInfo.m_cache_points;
+	delete[] preInfo.m_cache_points;
 
 namespace basicimg {
 	class img_connected_component {
@@ -337,7 +337,7 @@ namespace basicimg {
 			basicimg_cc_n_end();
 		}
 
-		virtual void ture_single_extract(img_connected_component cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
+		virtual void ture_single_extract(img_connected_component& cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
 			basicimg_cc_s_begin();
 			connect_condition = true;
 			basicimg_cc_s_end();
@@ -678,9 +678,8 @@ namespace basicimg {
 		}
 
 		void single_extract_stop(img_connected_component& cc, normal_connected_info& preInfo) {
-			cc.m_share_memory = sys_false;
-			cc.m_size = preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x;
-			cc.m_points = new mt_point[cc.m_size];
+			cc.init(preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x);
+			cc.m_rect = mt_rect();
 
 			for (i32 j = preInfo.m_regions[0].m_x, k = 0; j < preInfo.m_regions[0].m_y; ++j, ++k) {
 				cc.m_points[k] = preInfo.m_cache_points[j];
-- 
2.43.0


From cac3661676ee67d31e0d3243d2354ee21df6b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 118/155] fix: images of connected components keep to their
 region of interest and color type

---
 basicimg/src/img_connected_component.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index ae484af..8a9c924 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -106,7 +106,7 @@ mt_mat img_connected_component_helper::image_from_connected_component(const vect
 	vector<img_connected_component*> cc_pointers;
 	mt_helper::pointer_from_instance(cc_pointers, ccs);
 
-	return image_from_connected_component(cc_pointers, roi, forground_color, background_color);
+	return image_from_connected_component(cc_pointers, roi, forground_color, background_color, gray);
 }
 
 mt_mat img_connected_component_helper::image_from_connected_component(const vector<img_connected_component*>& ccs, const mt_rect& roi, const mt_scalar& forground_color /* = img_Color_Black */, const mt_scalar& background_color /* = img_Color_White */, b8 gray) {
@@ -116,7 +116,11 @@ mt_mat img_connected_component_helper::image_from_connected_component(const vect
 		const mt_point* pts = ccs[i]->m_points;
 
 		for (int j = 0; j < ccs[i]->m_size; ++j) {
-			res.set(forground_color, pts[j].m_y - roi.m_top, pts[j].m_x - roi.m_left);
+			mt_point current_pt(pts[j].m_x - roi.m_left, pts[j].m_y - roi.m_top);
+
+			if (img_img::point_in_image(current_pt, res)) {
+				res.set(forground_color, current_pt.m_y, current_pt.m_x);
+			}
 		}
 	}
 
-- 
2.43.0


From ec20217a90eaeed11dd86df8ef8c00ca10f19600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 119/155] fix: channel images of bright regions hold the levels
 of these regions

---
 basicimg/src/img_mser_result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_mser_result.cpp b/basicimg/src/img_mser_result.cpp
index 19935f8..86c46dd 100644
--- a/basicimg/src/img_mser_result.cpp
+++ b/basicimg/src/img_mser_result.cpp
@@ -84,7 +84,7 @@ img_mser_channel_image img_mser_result::generate_mser_channel_image(const mt_mat
 				const mt_point& pt = m_msers[1][j].m_cc.m_points[k];
 
 				if (m_msers[1][j].m_level > channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0)) {
-					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[0][j].m_level;
+					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[1][j].m_level;
 					channel_image.m_mser_id_image.at<i32>(pt.m_y, pt.m_x, 0) = j;
 				}
 			}
-- 
2.43.0


From 5595a687fe8fa8ed041546424da76d8d14896f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 120/155] fix: canny has room for the edges of long rows

---
 basicimg/src/img_canny.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index a1d542c..35408fa 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -161,7 +161,7 @@ void img_canny::canny_impl(mt_mat& edge) {
 
         if ((stack_top - stack_bottom) + cols > maxsize) {
             i32 sz = (i32)(stack_top - stack_bottom);
-            maxsize = maxsize * 3/2;
+            maxsize = max(maxsize * 3/2, sz + cols);
             m_stack.resize(maxsize);
             stack_bottom = &m_stack[0];
             stack_top = stack_bottom + sz;
-- 
2.43.0


From 206965139fea7f71c828cf0c84a5a681bfea6687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 121/155] fix: auto threshold canny accepts images smaller than
 a window step

---
 basicimg/src/img_auto_threshold_canny.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_auto_threshold_canny.cpp b/basicimg/src/img_auto_threshold_canny.cpp
index bc3a1f2..a369a52 100644
--- a/basicimg/src/img_auto_threshold_canny.cpp
+++ b/basicimg/src/img_auto_threshold_canny.cpp
@@ -69,8 +69,8 @@ void img_auto_threshold_canny::edge_detection(mt_mat& edge, const mt_mat& src, c
 	i32 window_step = m_auto_threshold_window_size / window_step_number;
 	i32 half_window_size = m_auto_threshold_window_size / 2;
 
-	i32 image_window_row_number = rows / window_step + ((rows % window_step) > half_window_size ? 1 : 0);
-	i32 image_window_col_number = cols / window_step + ((rows % window_step) > half_window_size ? 1 : 0);
+	i32 image_window_row_number = max(1, rows / window_step);
+	i32 image_window_col_number = max(1, cols / window_step);
 
 #define REAL_ROW(row)	\
 	(min(((row) / window_step), rowStepSub1))
-- 
2.43.0


From 8b291c0ec0e34d33eaffeb1680ad30a786431031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 122/155] fix: the extraction of connected components starts at
 its first point

---
 basicimg/include/img_connected_component.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index d6b5807..67a4e60 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -645,6 +645,7 @@ namespace basicimg {
 			preInfo.m_row_step = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_activate_rect.m_width;
 			preInfo.m_stack_helper = new image_pixel_type*[area];
 			preInfo.m_stack_top_index = -1;
+			preInfo.m_cache_point_index = 0;
 			preInfo.m_cache_points = new mt_point[area];
 		}
 
-- 
2.43.0


From e160f07cb873691410bdbb45b8aa4a82ccc332de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 123/155] fix: the extraction of connected components addresses
 its pixels by row and column

---
 basicimg/include/img_connected_component.h | 30 +++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 67a4e60..4229e54 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -5,7 +5,7 @@
 #define basicimg_cc_n_begin()	\
 	normal_connected_info preInfo;\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);	\
 	image_pixel_type* image_data = start_image_data;	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
@@ -58,8 +58,8 @@
 #define basicimg_cc_s_begin()	\
 	normal_connected_info preInfo;	\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 1);	\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1);	\
-	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1, 0);	\
+	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
 	b8 connect_condition = false;	\
@@ -220,7 +220,7 @@ namespace basicimg {
 		virtual void normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 			image_pixel_type* image_data = start_image_data;
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
@@ -233,7 +233,7 @@ namespace basicimg {
 
 			for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
 				for (i32 col = 1; col <= preInfo.m_activate_rect.m_width; ++col) {
-					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 					if (0 == image_data->m_visit_flag) {
 						startPoint.m_x = col - 1 + preInfo.m_activate_rect.m_left;
@@ -285,9 +285,9 @@ namespace basicimg {
 		virtual void single_extract(img_connected_component& cc, const mt_point& startPoint, mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 1);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 
-			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);
+			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
 			b8 connect_condition = false;
@@ -424,7 +424,7 @@ namespace basicimg {
 				temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
 				image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
-				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left);
+				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left, 0);
 
 				for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 					data->m_visit_flag = 1;
@@ -499,9 +499,9 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
 					i32 maskAppendOffset = (i32)maskInfo.m_mask_image.step()[0] - targetImageSize.m_width;
-					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin);
+					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -557,7 +557,7 @@ namespace basicimg {
 					for (i32 row = 0; row < src.size()[0]; ++row) {
 						for (i32 col = 0; col < src.size()[1]; ++col) {
 
-							basiclog_assert2(image_data == src.ptr<T>(row, col));	
+							basiclog_assert2(image_data == src.ptr<T>(row, col, 0));	
 
 							if (*image_data++ != maskInfo.m_mask_value) {
 								rowMax = max(rowMax, row);
@@ -589,7 +589,7 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -599,7 +599,7 @@ namespace basicimg {
 					data += temp_image_append_offset;
 
 					for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
-						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0));
+						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0, 0));
 
 						data->m_visit_flag = 1;
 						++data;
@@ -607,8 +607,8 @@ namespace basicimg {
 						i32 col = 1;
 						for (; col <= preInfo.m_activate_rect.m_width; ++col) {
 
-							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin));
-							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin, 0));
+							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 							if (*rawData != maskInfo.m_mask_value) {
 								data->m_visit_flag = 0;
-- 
2.43.0


From e1b3ab3b5b986179adac3dc74bedca7da833d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 124/155] fix: the stroke width transform passes over edge
 pixels without a gradient

---
 basicimg/src/img_stroke_width_transform.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index bf115d8..5cad3c7 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -57,6 +57,10 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 			start_g_norm = start_g_x * start_g_x + start_g_y * start_g_y;
 			start_g_norm = sqrt(start_g_norm);
 
+			if (0 == start_g_norm) {
+				continue;
+			}
+
 			start_g_x /= start_g_norm;
 			start_g_y /= start_g_norm;
 
-- 
2.43.0


From 91b05489ff3eb60c0fcbbf3a90dc65ece807120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 125/155] fix: the idiap extractor looks for boundary pixels
 above level 255

---
 basicimg/src/img_idiap_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_idiap_mser.cpp b/basicimg/src/img_idiap_mser.cpp
index c924dac..91d564a 100644
--- a/basicimg/src/img_idiap_mser.cpp
+++ b/basicimg/src/img_idiap_mser.cpp
@@ -432,7 +432,7 @@ step_3:
 
 
 
-		while (boundaryPixels[priority].empty() && (priority < 256))
+		while ((priority < 256) && boundaryPixels[priority].empty())
 
 			++priority;
 
-- 
2.43.0


From 9f5486721a44a3aee01b10dabb4930b2231a0caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 126/155] fix: the vlfeat extractor takes diagonal pixels of
 narrow images for 4-connected ones

---
 basicimg/src/img_vlfeat_mser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index 9f0ab70..b08d138 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -1578,8 +1578,11 @@ mser_process(MserFilt *f, unsigned char const *im) {
 			b8 valid_neibour = sys_true;
 
 			if (f->connect_type == img_Connected_Type_4_Neibour) {
-				i32 n_offset = abs((i32)n_idx - (i32)idx);
-				if (n_offset != 1 && n_offset % dims[0] != 0) {
+				i32 moved = 0;
+				for (k = 0; k < ndims; ++k) {
+					moved += (dsubs[k] != 0) ? 1 : 0;
+				}
+				if (moved > 1) {
 					valid_neibour = sys_false;
 				}
 			}
-- 
2.43.0


From 15b7087cc068f75337dc157cf95aea99f85b16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 127/155] fix: fast mser v1 frees the boundary orders and
 merged points it allocates

---
 basicimg/include/img_fast_mser_v1.h |  2 ++
 basicimg/src/img_fast_mser_v1.cpp   | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index b3227ae..f429d47 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -152,6 +152,8 @@ namespace basicimg {
 
 		vector<i32*> m_orderd_indexes;
 
+		void free_ordered_indexes();
+
 		void allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask);
 		void allocate_memory_parallel_1(const mt_mat& img, const img_mask_info<u8>& mask);
 		void allocate_memory_parallel_2(const mt_mat& img, const img_mask_info<u8>& mask);
diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index e5223fa..086b0aa 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -57,6 +57,16 @@ img_fast_mser_v1::~img_fast_mser_v1() {
 	basicsys_free(m_linked_points);
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
+	basicsys_free(m_merged_points);
+	free_ordered_indexes();
+}
+
+void img_fast_mser_v1::free_ordered_indexes() {
+	for (i32 i = 0; i < (i32)m_orderd_indexes.size(); ++i) {
+		basicsys_free(m_orderd_indexes[i]);
+	}
+
+	m_orderd_indexes.clear();
 }
 
 void img_fast_mser_v1::clear_memory_cache() {
@@ -65,6 +75,7 @@ void img_fast_mser_v1::clear_memory_cache() {
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
 	basicsys_free(m_merged_points);
+	free_ordered_indexes();
 
 	m_heap_size = 0;
 	m_masked_image_size = 0;
@@ -94,6 +105,8 @@ void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8
 		m_heap = (i16**)malloc(sizeof(i16*) * m_heap_size);
 	}
 	
+	free_ordered_indexes();
+
 	if (m_parallel_thread_number == 1) {
 		allocate_memory_parallel_1(img, mask);
 	} else if (m_parallel_thread_number == 2) {
-- 
2.43.0


From c427bc3f94895f50271dfe908383b079ccb5cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 128/155] fix: fast mser v2 frees the index tables of its
 extraction

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index dcda76c..f26d72a 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1638,6 +1638,8 @@ void img_fast_mser_v2::extract_pixel_serial(img_multi_msers& msers, u8 gray_mask
 			}
 		}
 	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::extract_pixel_parallel(img_multi_msers& msers, u8 gray_mask) {
@@ -2061,6 +2063,12 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 		mser_block_info_pointer[2] += 1;
 		mser_block_info_pointer[3] += 1;
 	}
+
+	if (free_memory_size < total_block_mser_info_size) {
+		free(mser_block_indexes);
+	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::calculate_variation(mser_region* region) {
-- 
2.43.0


From ad30c137e18ae6f53e3db03e264e79098a82eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 129/155] fix: regions without points (of the vlfeat extractor)
 can be copied

---
 basicimg/src/img_mser_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index 9efe988..d8b396c 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -39,7 +39,7 @@ void img_mser::operator=(const img_mser& other) {
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		if (m_size > 0) {
+		if (m_size > 0 && other.m_points != NULL) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
 		} else {
-- 
2.43.0


From 8a2d54232355c3747f99d8f62de783021bb947bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 130/155] fix: the vlfeat extractor frees the filter it
 replaces and the regions of its last image

---
 basicimg/include/img_vlfeat_mser.h |  2 ++
 basicimg/src/img_vlfeat_mser.cpp   | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/basicimg/include/img_vlfeat_mser.h b/basicimg/include/img_vlfeat_mser.h
index 3b1e251..25c3a23 100644
--- a/basicimg/include/img_vlfeat_mser.h
+++ b/basicimg/include/img_vlfeat_mser.h
@@ -13,6 +13,8 @@ namespace basicimg {
 
 		}
 
+		~img_vlfeat_mser();
+
 	protected:
 
 		void allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask);
diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index b08d138..f2deb05 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -1148,6 +1148,8 @@ void mser_new(void *&fv, int ndims, int const *dims) {
 	}
 
 	if (need_rellocate) {
+		mser_delete(f);
+
 		f = (MserFilt *) calloc(sizeof(MserFilt), 1);
 		fv = f;
 
@@ -1213,15 +1215,15 @@ void mser_new(void *&fv, int ndims, int const *dims) {
 		}
 	}
 
-	f->er = 0;
+	basicsys_free(f->er);
 
 	f->rer = 0;
 
-	f->mer = 0;
+	basicsys_free(f->mer);
 
 	f->rmer = 0;
 
-	f->ell = 0;
+	basicsys_free(f->ell);
 
 	f->rell = 0;
 }
@@ -2384,6 +2386,10 @@ void img_vlfeat_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>
 	f->connect_type = m_connected_type;
 }
 
+img_vlfeat_mser::~img_vlfeat_mser() {
+	clear_memory_cache();
+}
+
 void img_vlfeat_mser::clear_memory_cache() {
 	m_src = mt_mat();
 	mser_delete((MserFilt*)m_vl_feat_instance);
-- 
2.43.0


From 773c08699695acca23f3194df51f2420d5f991a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 131/155] fix: constants of recorded computations leak

---
 basicmath/src/mt_auto_derivative.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index af134f0..afd1cbd 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -341,6 +341,7 @@ mt_ad_tree_node* mt_auto_derivative::get_node(const mt_mat& mat) {
 
 mt_ad_tree_node* mt_auto_derivative::get_node(const vector<double>& const_value) {
 	mt_ad_tree_node* node = new mt_ad_const_leaf_tree_node(const_value);
+	m_nodes.push_back(node);
 	return node;
 }
 
-- 
2.43.0


From b11cb9fe82f0a3a6566b1475421f688ad74abf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 132/155] fix: repeat of a matrix with many dimensions leaks
 its sizes

---
 basicmath/src/mt_mat.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index b506076..9dbf3c5 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2416,9 +2416,11 @@ mt_mat mt_mat::repeat(i32 nsize, i32 dim, i32 nchannels) const {
 
 	nsizes[dim] = nsize;
 	
-	return repeat(this->dim(), nsizes, nchannels);
+	mt_mat res = repeat(this->dim(), nsizes, nchannels);
 
 	basicmath_mat_release(nsizes);
+
+	return res;
 }
 
 mt_mat mt_mat::repeat(const vector<i32>& nsizes, i32 nchannels) const {
@@ -2442,6 +2444,8 @@ mt_mat mt_mat::repeat(i32 dims, const i32* nsizes, i32 nchannels) const {
 	}
 
 	if (!size_changed && nchannels == 1) {
+		basicmath_mat_release(dst_sizes);
+
 		return clone();
 	}
 
-- 
2.43.0


From 889eba5352f5a79d01ecd33293ccf8dc740f35a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 133/155] fix: expand of a matrix with many dimensions leaks
 its ranges

---
 basicmath/src/mt_mat_math_operation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 33e5c9b..30320e2 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -2791,6 +2791,8 @@ mt_mat mt_mat::expand(i32 size, const i32* side_sizes_1, const i32* side_sizes_2
 		m_auto_derivative->expand(res, *this, size, ranges);
 	}
 
+	basicmath_mat_release(ranges);
+
 	return res;
 }
 
-- 
2.43.0


From f88d480c59ef12749fa2046c48499b1567a32953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 134/155] fix: merge_align_dim of matrices with many dimensions
 leaks their sizes

---
 basicmath/src/mt_mat_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 0f62cee..9b77e10 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -44,6 +44,7 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 		auto_derivative->merge_align_dim(res, elements, dim);
 	}
 
+	basicmath_mat_release(res_size);
 
 	return res;
 }
-- 
2.43.0


From 663b13b20a4b75d3ff71b18477212a552a446508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 135/155] fix: periodic biases with many dimensions leak their
 indexes

---
 basicmath/src/mt_mat_math_operation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 30320e2..76d539c 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1759,6 +1759,8 @@ namespace basicmath {
 					}
 				}
 			}
+
+			basicmath_mat_release(bias_indexes);
 		}
 
 		static void operation_bias(mt_mat& res, const mt_mat& src, const mt_mat& bias, mt_mat_helper::Math_Op_Code code) {
-- 
2.43.0


From 7f263f2da96608b038901b1528200d4a74291a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 136/155] fix: matrices of i8 are printed as numbers

---
 basicmath/src/mt_mat_serialize.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat_serialize.cpp b/basicmath/src/mt_mat_serialize.cpp
index 37fa702..7476d49 100644
--- a/basicmath/src/mt_mat_serialize.cpp
+++ b/basicmath/src/mt_mat_serialize.cpp
@@ -1,13 +1,23 @@
 #include "stdafx.h"
 
 namespace basicmath {
+	template<class T>
+	static void write_element(sys_strcombine& str, T value) {
+		str << value;
+	}
+
+	//sys_strcombine writes i8 as a character
+	static void write_element(sys_strcombine& str, i8 value) {
+		str << (i32)value;
+	}
+
 	template<class T>
 	static void write_1d_mat(sys_strcombine& str, const mt_mat& mat) {
 		const u8* ptr_mat_dim0 = mat.data();
 		for (int row = 0; row < mat.size()[0]; ++row) {
 			const T* ptr_channel = (const T*)ptr_mat_dim0;
 			for (int c = 0; c < mat.channel(); ++c) {
-				str << ptr_channel[c];
+				write_element(str, ptr_channel[c]);
 
 				if (c != mat.channel() - 1) {
 					str<<" ";
@@ -33,7 +43,7 @@ namespace basicmath {
 			for (int col = 0; col < mat.size()[1]; ++col) {
 				const T* ptr_channel = (const T*)ptr_mat_dim1;
 				for (int c = 0; c < mat.channel(); ++c) {
-					str << ptr_channel[c];
+					write_element(str, ptr_channel[c]);
 
 					if (c != mat.channel() - 1) {
 						str<<" ";
@@ -66,7 +76,7 @@ namespace basicmath {
 				for (int col = 0; col < mat.size()[2]; ++col) {
 					const T* ptr_channel = (const T*)ptr_mat_dim2;
 					for (int c = 0; c < mat.channel(); ++c) {
-						str << ptr_channel[c];
+						write_element(str, ptr_channel[c]);
 
 						if (c != mat.channel() - 1) {
 							str<<" ";
-- 
2.43.0


From 970b51dc1c225f956ea7281886a74170b198d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 137/155] fix: the elements of a printed 1d mat begin on a line
 of their own

---
 basicmath/src/mt_mat_serialize.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_mat_serialize.cpp b/basicmath/src/mt_mat_serialize.cpp
index 7476d49..4880ad7 100644
--- a/basicmath/src/mt_mat_serialize.cpp
+++ b/basicmath/src/mt_mat_serialize.cpp
@@ -13,6 +13,8 @@ namespace basicmath {
 
 	template<class T>
 	static void write_1d_mat(sys_strcombine& str, const mt_mat& mat) {
+		str << "\n";
+
 		const u8* ptr_mat_dim0 = mat.data();
 		for (int row = 0; row < mat.size()[0]; ++row) {
 			const T* ptr_channel = (const T*)ptr_mat_dim0;
-- 
2.43.0


From 308819d9c2157d3a3611f5461d457f7d889084e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 138/155] fix: utf-8 and wide strings are converted into each
 other outside windows too

---
 basicsys/src/sys_strconvert.cpp | 47 +++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/basicsys/src/sys_strconvert.cpp b/basicsys/src/sys_strconvert.cpp
index 5ba431e..4ee2bae 100644
--- a/basicsys/src/sys_strconvert.cpp
+++ b/basicsys/src/sys_strconvert.cpp
@@ -27,6 +27,28 @@ string sys_strconvert::utf8_from_utf16(const wstring& utf16) {
 		}			
 	}
 
+#else
+	char* ptr = mBuffer;
+
+	for (size_t i = 0; i < utf16.size(); ++i) {
+		u32 code = (u32)utf16[i];
+
+		if (code < 0x80) {
+			*ptr++ = (char)code;
+		} else if (code < 0x800) {
+			*ptr++ = (char)(0xC0 | (code >> 6));
+			*ptr++ = (char)(0x80 | (code & 0x3F));
+		} else if (code < 0x10000) {
+			*ptr++ = (char)(0xE0 | (code >> 12));
+			*ptr++ = (char)(0x80 | ((code >> 6) & 0x3F));
+			*ptr++ = (char)(0x80 | (code & 0x3F));
+		} else {
+			*ptr++ = (char)(0xF0 | ((code >> 18) & 0x07));
+			*ptr++ = (char)(0x80 | ((code >> 12) & 0x3F));
+			*ptr++ = (char)(0x80 | ((code >> 6) & 0x3F));
+			*ptr++ = (char)(0x80 | (code & 0x3F));
+		}
+	}
 #endif
 
 	string res(mBuffer);
@@ -54,6 +76,31 @@ wstring sys_strconvert::utf16_from_utf8(const string& utf8) {
 			bFailed=(0 == ::MultiByteToWideChar( CP_UTF8, 0, utf8.c_str(), nLengthA, mBuffer, nLengthW));
 		}			
 	}
+#else
+	wchar_t* ptr = mBuffer;
+
+	for (size_t i = 0; i < utf8.size();) {
+		u8 first = (u8)utf8[i++];
+		u32 code = first;
+		i32 following = 0;
+
+		if (first >= 0xF0) {
+			code = first & 0x07;
+			following = 3;
+		} else if (first >= 0xE0) {
+			code = first & 0x0F;
+			following = 2;
+		} else if (first >= 0xC0) {
+			code = first & 0x1F;
+			following = 1;
+		}
+
+		for (; following > 0 && i < utf8.size() && ((u8)utf8[i] & 0xC0) == 0x80; --following) {
+			code = (code << 6) | ((u8)utf8[i++] & 0x3F);
+		}
+
+		*ptr++ = (wchar_t)code;
+	}
 #endif
 
 	wstring res(mBuffer);
-- 
2.43.0


From 85f9a75c05fe0f7149dff7ddce651d99af4cf3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 139/155] fix: set_eye() makes the identity matrix

---
 basicmath/src/mt_mat.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 9dbf3c5..d7ec982 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1348,8 +1348,16 @@ b8 mt_mat::is_empty() const {
 
 mt_mat& mt_mat::set_eye(b8 left_high) {
 	basiclog_assert2(dim() == 2);
-	on_vaule_changed();
 
+	set(0.0);
+
+	i32 number = size()[0] < size()[1] ? size()[0] : size()[1];
+
+	for (i32 i = 0; i < number; ++i) {
+		set(1.0, i, left_high ? i : size()[1] - 1 - i);
+	}
+
+	return *this;
 }
 
 b8 mt_mat::operator==(const mt_mat& other) const {
-- 
2.43.0


From 5e9f5c0888b61c599d6d39dac192a3dea4c17927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 140/155] fix: is_symmetrical() looks at the elements

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index d7ec982..7ec9712 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2946,5 +2946,5 @@ b8 mt_mat::is_step_negative() const {
 }
 
 b8 mt_mat::is_symmetrical() const {
-	return sys_true;
+	return dim() == 2 && size()[0] == size()[1] && *this == t();
 }
\ No newline at end of file
-- 
2.43.0


From 040f23f5282fef5108cefb0dc08cd90fbeae49e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 141/155] fix: matrices with steps of both signs are copied
 before they are multiplied

---
 basicmath/src/ml_multiplication.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/ml_multiplication.cpp b/basicmath/src/ml_multiplication.cpp
index b9ad7f0..11051dc 100644
--- a/basicmath/src/ml_multiplication.cpp
+++ b/basicmath/src/ml_multiplication.cpp
@@ -48,7 +48,7 @@ namespace basicmath {
 					}
 			} else {
 				mt_mat temp_cur = a;
-				if (a.is_step_negative()) {
+				if (!a.is_step_positive()) {
 					basiclog_warning(basiclog_performance_warning, "the step of current mat has negative values, this will reduce the performance, you should better input a mat with all positive steps!");
 					temp_cur = a.clone();
 				} else if (!a.is_min_abs_step_equal_element_size()) {
@@ -57,7 +57,7 @@ namespace basicmath {
 				}
 
 				mt_mat temp_value = b;
-				if (b.is_step_negative()) {
+				if (!b.is_step_positive()) {
 					basiclog_warning(basiclog_performance_warning, "the step of other mat has negative values, this will reduce the performance, you should better input a mat with all positive steps!");
 					temp_value = b.clone();
 				} else if (!b.is_min_abs_step_equal_element_size()) {
-- 
2.43.0


From 6330186e2c1021f6b1cdc49b4b0ed9d3903a88bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 142/155] fix: matrices are multiplied without mkl too

---
 basicmath/src/ml_multiplication.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/ml_multiplication.cpp b/basicmath/src/ml_multiplication.cpp
index 11051dc..d9db4d4 100644
--- a/basicmath/src/ml_multiplication.cpp
+++ b/basicmath/src/ml_multiplication.cpp
@@ -90,11 +90,26 @@ namespace basicmath {
 		}
 
 		static void sgemm_impl(b8 trans_a, b8 trans_b, i32 m, i32 n, i32 k, const f32* a, i32 lda, const f32* b, i32 ldb, f32* c, i32 ldc) {
-			basiclog_unsupport2();
+			gemm_impl(trans_a, trans_b, m, n, k, a, lda, b, ldb, c, ldc);
 		}
 
 		static void dgemm_impl(b8 trans_a, b8 trans_b, i32 m, i32 n, i32 k, const f64* a, i32 lda, const f64* b, i32 ldb, f64* c, i32 ldc) {
-			basiclog_unsupport2();
+			gemm_impl(trans_a, trans_b, m, n, k, a, lda, b, ldb, c, ldc);
+		}
+
+		template<class T>
+		static void gemm_impl(b8 trans_a, b8 trans_b, i32 m, i32 n, i32 k, const T* a, i32 lda, const T* b, i32 ldb, T* c, i32 ldc) {
+			for (i32 i = 0; i < m; ++i) {
+				for (i32 j = 0; j < n; ++j) {
+					T sum = 0;
+
+					for (i32 p = 0; p < k; ++p) {
+						sum += (trans_a ? a[p * lda + i] : a[i * lda + p]) * (trans_b ? b[j * ldb + p] : b[p * ldb + j]);
+					}
+
+					c[i * ldc + j] = sum;
+				}
+			}
 		}
 	};
 
-- 
2.43.0


From f583d254eaf8f98c058db5eab52509fb9eca1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 143/155] fix: matrices are convolved without mkl too

---
 basicmath/src/mt_convolution.cpp | 96 ++++++++++++++++++++++++++++++--
 1 file changed, 92 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index ce3e9eb..ccafbbb 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -93,6 +93,85 @@ namespace basicmath {
 		}
 
 	private:
+
+#if !defined basicsys_enable_mkl
+		struct direct_task {
+			vector<i32> src_sizes;
+			vector<i32> kernel_sizes;
+			vector<i32> res_sizes;
+			vector<i32> strides;
+			vector<i32> starts;
+		};
+
+		//a pointer to the lowest memory is moved to the element whose indexes are 0
+		template<class T>
+		static T* first_element(T* memory, const vector<i32>& sizes, const i32* steps) {
+			for (i32 i = 0; i < (i32)sizes.size(); ++i) {
+				if (steps[i] < 0) {
+					memory -= (sizes[i] - 1) * steps[i];
+				}
+			}
+
+			return memory;
+		}
+
+		static b8 next_index(vector<i32>& index, const vector<i32>& sizes) {
+			for (i32 i = (i32)index.size() - 1; i >= 0; --i) {
+				if (++index[i] < sizes[i]) {
+					return sys_true;
+				}
+
+				index[i] = 0;
+			}
+
+			return sys_false;
+		}
+
+		template<class T>
+		static void direct_conv(const direct_task& task, const T* src, const i32* src_steps, const T* kernel, const i32* kernel_steps, T* res, const i32* res_steps) {
+			i32 dims = (i32)task.res_sizes.size();
+
+			src = first_element(src, task.src_sizes, src_steps);
+			kernel = first_element(kernel, task.kernel_sizes, kernel_steps);
+			res = first_element(res, task.res_sizes, res_steps);
+
+			vector<i32> res_index(dims, 0);
+
+			do {
+				T sum = 0;
+				i32 res_offset = 0;
+				vector<i32> kernel_index(dims, 0);
+
+				for (i32 i = 0; i < dims; ++i) {
+					res_offset += res_index[i] * res_steps[i];
+				}
+
+				do {
+					b8 inside = sys_true;
+					i32 src_offset = 0;
+					i32 kernel_offset = 0;
+
+					for (i32 i = 0; i < dims; ++i) {
+						i32 src_index = task.starts[i] + res_index[i] * task.strides[i] - kernel_index[i];
+
+						if (src_index < 0 || src_index >= task.src_sizes[i]) {
+							inside = sys_false;
+						}
+
+						src_offset += src_index * src_steps[i];
+						kernel_offset += kernel_index[i] * kernel_steps[i];
+					}
+
+					if (inside) {
+						sum += src[src_offset] * kernel[kernel_offset];
+					}
+				} while (next_index(kernel_index, task.kernel_sizes));
+
+				res[res_offset] = sum;
+			} while (next_index(res_index, task.res_sizes));
+		}
+#endif
+
 		static void new_task(void*& task, Conv_Model mode, const mt_mat& src, const mt_mat& kernel, const mt_mat& res, const i32* strides, const i32* starts) {
 
 #if defined basicsys_enable_mkl
@@ -107,7 +186,15 @@ namespace basicmath {
 			basiclog_assert2(VSL_STATUS_OK == vslConvSetDecimation(task, &strides[0]));
 			basiclog_assert2(VSL_STATUS_OK == vslConvSetStart(task, &starts[0]));
 #else
-			basiclog_unsupport2();
+			direct_task* new_task = new direct_task();
+
+			new_task->src_sizes.assign(src.size(), src.size() + src.dim());
+			new_task->kernel_sizes.assign(kernel.size(), kernel.size() + kernel.dim());
+			new_task->res_sizes.assign(res.size(), res.size() + res.dim());
+			new_task->strides.assign(strides, strides + res.dim());
+			new_task->starts.assign(starts, starts + res.dim());
+
+			task = new_task;
 #endif
 		}
 
@@ -115,7 +202,8 @@ namespace basicmath {
 #if defined basicsys_enable_mkl
 			vslConvDeleteTask(&task);
 #else
-			basiclog_unsupport2();
+			delete (direct_task*)task;
+			task = NULL;
 #endif
 		}
 
@@ -125,7 +213,7 @@ namespace basicmath {
 #if defined basicsys_enable_mkl
 			basiclog_assert2(VSL_STATUS_OK == vsldConvExec(task, src, src_steps, kernel, kernel_steps, res, res_steps));
 #else
-			basiclog_unsupport2();
+			direct_conv(*(const direct_task*)task, src, src_steps, kernel, kernel_steps, res, res_steps);
 #endif
 		}
 
@@ -135,7 +223,7 @@ namespace basicmath {
 #if defined basicsys_enable_mkl
 			basiclog_assert2(VSL_STATUS_OK == vslsConvExec(task, src, src_steps, kernel, kernel_steps, res, res_steps));
 #else
-			basiclog_unsupport2();
+			direct_conv(*(const direct_task*)task, src, src_steps, kernel, kernel_steps, res, res_steps);
 #endif
 		}
 
-- 
2.43.0


From 0f77d6f09ff63abb6a339ce0b0bc1373ea1200ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 144/155] fix: texts of any length are combined by a format

---
 basicsys/src/sys_strhelper.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 4e2eaf5..8df94f1 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -3,18 +3,31 @@
 
 
 string sys_strhelper::combine(const char* pszFormat, ...) {
-	char szBuffer[102400];
-
 	va_list ptr;
+
+	va_start(ptr, pszFormat);
+#ifdef _WIN32
+	int length = _vscprintf(pszFormat, ptr);
+#else
+	int length = vsnprintf(NULL, 0, pszFormat, ptr);
+#endif
+	va_end(ptr);
+
+	if (length < 0) {
+		return string();
+	}
+
+	vector<char> buffer(length + 1);
+
 	va_start(ptr, pszFormat);
 #ifdef _WIN32
-	vsprintf_s(szBuffer, sizeof(szBuffer) / sizeof(char), pszFormat, ptr);
+	vsprintf_s(&buffer[0], buffer.size(), pszFormat, ptr);
 #else
-	vsprintf_s(szBuffer, pszFormat, ptr);
+	vsnprintf(&buffer[0], buffer.size(), pszFormat, ptr);
 #endif
 	va_end(ptr);
 
-	return string(szBuffer);
+	return string(&buffer[0]);
 }
 
 vector<string> sys_strhelper::split(const string& text, const string& split_tag) {
-- 
2.43.0


From c739a2167515b83d9468f49505b1ce2392e01c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 145/155] fix: the vertical kernel of a blur has the height
 that is asked for

---
 basicimg/src/img_img.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index a592f60..5b9893a 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -350,7 +350,7 @@ void img_img::gaussian_blur(mt_mat& res, const mt_mat& src, const mt_size& kerne
 	if (kernel_height == kernel_width && mt_helper::compare_double(sigma_x, sigma_y) == 0) {
 		kernel_y = kernel_x;
 	} else {
-		generate_gaussian_kernel(kernel_y, kernel_width, sigma_y);
+		generate_gaussian_kernel(kernel_y, kernel_height, sigma_y);
 	}
 
 	mt_mat temp;
-- 
2.43.0


From e971adb6b9b6999330111a18a0004f2cc0d6ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 146/155] fix: images of several channels are blurred channel
 by channel

---
 basicimg/src/img_img.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index 5b9893a..4937b99 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -356,8 +356,8 @@ void img_img::gaussian_blur(mt_mat& res, const mt_mat& src, const mt_size& kerne
 	mt_mat temp;
 	mt_mat temp_src = src.convert(mt_F64);
 
-	temp_src.conv(temp, kernel_x, mt_Conv_Boundary_Type_Same);
-	temp.conv(temp, kernel_y.t(), mt_Conv_Boundary_Type_Same);
+	temp_src.conv(temp, kernel_x, mt_Conv_Boundary_Type_Same, mt_Conv_Kernel_Align_Type_Cross_Row);
+	temp.conv(temp, kernel_y.t(), mt_Conv_Boundary_Type_Same, mt_Conv_Kernel_Align_Type_Cross_Row);
 
 	//basiclog_info2(temp);
 
-- 
2.43.0


From 9e66aad547d671e06e8c46e7b88413ea888487b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 147/155] fix: a gaussian kernel of sigma 0 is not nan

---
 basicimg/src/img_img.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index 4937b99..4389068 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -379,7 +379,7 @@ void img_img::generate_gaussian_kernel(mt_mat& kernel, i32 size, f64 sigma) {
 	f64 sum = 0;
 
 	for (i32 i = 0; i < size; ++i) {
-		f64 temp = (i - half) / sigma;
+		f64 temp = i == half ? 0 : (i - half) / sigma;
 		*data = exp(-0.5 * temp * temp);
 		sum += *data;
 		data += kernel.last_dim_element_step();
-- 
2.43.0


From 33654a3646179c60d3bb7cf3cbf719f5f1bc035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 148/155] fix: the strides of a recorded convolution are
 released after they are recorded

---
 basicmath/src/mt_convolution.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index ccafbbb..31ce916 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -367,7 +367,6 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 	basicmath_mat_release(full_sizes);
 	basicmath_mat_release(sizes);
 	basicmath_mat_release(starts);
-	basicmath_mat_release(temp_strides);
 	basicmath_mat_release(res_steps);
 
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
@@ -376,6 +375,8 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 
 		m_auto_derivative->cnov(res, *this, kernel, boundary_type, temp_strides);
 	}
+
+	basicmath_mat_release(temp_strides);
 }
 
 mt_mat mt_mat::conv(const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type /* = mt_Conv_Boundary_Type_Valid */, mt_Conv_Kernel_Align_Type align_type, const int* conv_strides /* = NULL */) const {	
-- 
2.43.0


From 7556afca59fd119b84c427629d0b6a9b650b1bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 149/155] fix: the former place of a json iterator compares
 equal to itself

---
 basicsys/src/sys_json.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index a497d33..e98f795 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -940,12 +940,12 @@ sys_json_reader_iteartor& sys_json_reader_iteartor::operator ++ () {
 }
 
 sys_json_reader_iteartor sys_json_reader_iteartor::operator ++ (int) {
-	sys_json_reader_iteartor other(m_node_type);
+	sys_json_reader_iteartor other(*this);
 
 	if (m_node_type == sys_Node_Type_Map) {
-		other.m_map_iterator = m_map_iterator++;
+		++m_map_iterator;
 	} else if (m_node_type == sys_Node_Type_Seq) {
-		other.m_seq_iterator = m_seq_iterator++;
+		++m_seq_iterator;
 	} else {
 		basiclog_assert2(false);
 	}
@@ -966,12 +966,12 @@ sys_json_reader_iteartor& sys_json_reader_iteartor::operator -- () {
 }
 
 sys_json_reader_iteartor sys_json_reader_iteartor::operator -- (int) {
-	sys_json_reader_iteartor other(m_node_type);
+	sys_json_reader_iteartor other(*this);
 
 	if (m_node_type == sys_Node_Type_Map) {
-		other.m_map_iterator = m_map_iterator--;
+		--m_map_iterator;
 	} else if (m_node_type == sys_Node_Type_Seq) {
-		other.m_seq_iterator = m_seq_iterator--;
+		--m_seq_iterator;
 	} else {
 		basiclog_assert2(false);
 	}
-- 
2.43.0


From 3921c4e20e859a5a8484dc414208427b853e7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 150/155] fix: a byte file writer that cannot write its last
 bytes says so when it is closed

---
 basicsys/src/sys_buffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 910276b..1a68546 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -314,8 +314,9 @@ sys_byte_file_buffer_writer::~sys_byte_file_buffer_writer() {
 }
 
 void sys_byte_file_buffer_writer::close() {
-	if (m_file != NULL && m_need_close_file) {
-		fclose(m_file);
+	if (m_file != NULL && m_need_close_file && fclose(m_file) != 0) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		basiclog_warning2("failed to fclose");
 	}
 
 	m_file = NULL;
-- 
2.43.0


From 6cfdad4dc52295a85acab3eef1c58eb051877e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 151/155] fix: a string file writer that cannot write its last
 bytes says so when it is closed

---
 basicsys/src/sys_buffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 1a68546..703f9cd 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -762,8 +762,9 @@ sys_string_file_buffer_writer::~sys_string_file_buffer_writer() {
 }
 
 void sys_string_file_buffer_writer::close() {
-	if (m_file != NULL && m_need_close_file) {
-		fclose(m_file);
+	if (m_file != NULL && m_need_close_file && fclose(m_file) != 0) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		basiclog_warning2("failed to fclose");
 	}
 
 	m_file = NULL;
-- 
2.43.0


From 2e9239e40e347f49ff6612c2c8d4d48ea7a9ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:43 +0000
Subject: [PATCH 152/155] fix: reading a line of a file that cannot be read
 ends

---
 basicsys/src/sys_buffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 703f9cd..1a7818d 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -949,6 +949,10 @@ void sys_string_file_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
+		if (m_io_status == sys_IO_Status_Error_File_Operation) {
+			break;
+		}
+
 		if (c == '\n') {
 			break;
 		}
-- 
2.43.0


From 869d803ff4cf202ece1aa24b81aa7d84df670e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 153/155] fix: a read from a file whose size cannot be asked
 again does not overrun its buffer

---
 basicsys/src/sys_buffer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 1a7818d..4a4f7ba 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -518,8 +518,6 @@ void sys_byte_file_buffer_reader::read(u8* start, i32 size) const {
 		return;
 	}
 
-	size = (i32)min(remain_size(), (i64)size);
-
 	if (size == 0) {
 		return;
 	}
-- 
2.43.0


From 7f4aeaa09381068aec816b2c3067ef7c60910b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:24 +0000
Subject: [PATCH 154/155] fix: log lines of time zones 12 and more hours from
 utc name their zone

---
 basiclog/src/basiclog.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 3011865..50d593e 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -169,9 +169,10 @@ string log_logger::format_timestamp() const {
 #endif
 
 	int time_zone = tm_local.tm_hour - tm_utc.tm_hour;  
-	if (time_zone < -12) {  
+	int day = (tm_local.tm_wday - tm_utc.tm_wday + 7) % 7;
+	if (day == 1) {  
 		time_zone += 24;   
-	} else if (time_zone > 12) {  
+	} else if (day == 6) {  
 		time_zone -= 24;  
 	}  
 
@@ -289,9 +290,10 @@ string log_file_logger::generate_new_file_title() const {
 #endif
 
 	int time_zone = tm_local.tm_hour - tm_utc.tm_hour;  
-	if (time_zone < -12) {  
+	int day = (tm_local.tm_wday - tm_utc.tm_wday + 7) % 7;
+	if (day == 1) {  
 		time_zone += 24;   
-	} else if (time_zone > 12) {  
+	} else if (day == 6) {  
 		time_zone -= 24;  
 	}  
 
-- 
2.43.0


From 7757c38864e310ad03e770ffe5761facff37ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:26 +0000
Subject: [PATCH 155/155] fix: the number of references of a matrix is read
 under its lock, as the mat cache needs with several threads

---
 basicmath/include/mt_mat.h | 3 ++-
 basicmath/src/mt_mat.cpp   | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/basicmath/include/mt_mat.h b/basicmath/include/mt_mat.h
index 705efe2..0e69923 100644
--- a/basicmath/include/mt_mat.h
+++ b/basicmath/include/mt_mat.h
@@ -97,7 +97,7 @@ class mt_mat {
 				return 0;
 			}
 
-			return m_reference->m_ref_number;
+			return m_reference->number();
 		}
 			 
 		mt_mat derivative(const mt_mat& other) const;
@@ -652,6 +652,7 @@ class mt_mat {
 			~reference_info();
 			void add_ref();
 			b8 sub_ref();
+			i32 number();
 
 			i32 m_ref_number;
 			void* m_ref_mutex;	//!< Even the mt_mat is not thread safety, however, we must make sure the =, sub, channel, reshape etc. operations (change the reference number while resuse the memory)
diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7ec9712..2978f2b 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -795,6 +795,11 @@ b8 mt_mat::reference_info::sub_ref() {
 	return m_ref_number == 0;
 }
 
+i32 mt_mat::reference_info::number() {
+	sys_thread_lock lock(m_ref_mutex);
+	return m_ref_number;
+}
+
 mt_mat::mt_mat() 
 	: m_data(NULL)
 	, m_dynamic_size_steps(NULL)
-- 
2.43.0

