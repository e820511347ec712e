From 92f6dfdc5541ab61f11d0f60969d977538fcc088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:15 +0000
Subject: [PATCH 01/46] fix: find_local_extrema appends to one vector from
 several OpenMP threads

---
 image_operations.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 4f4a4b2..18eb7fa 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6732,9 +6732,11 @@ namespace TinyDIP
             }
             const int block_size = 3;
             std::vector<std::tuple<std::size_t, std::size_t, ElementT, ElementT>> output;
+            //  Each row collects its own extrema, so that concurrent iterations never touch the same container
+            std::vector<std::vector<std::tuple<std::size_t, std::size_t, ElementT, ElementT>>> row_outputs(input1.getHeight());
             auto width = input1.getWidth() - 1;
             auto height = input1.getHeight() - 1;
-            #pragma omp parallel for collapse(2)
+            #pragma omp parallel for
             for (std::size_t y = 1; y < height; ++y)
             {
                 for (std::size_t x = 1; x < width; ++x)
@@ -6747,7 +6749,7 @@ namespace TinyDIP
                         if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold) && keypoint_filtering(subimage2, contrast_check_threshold, edge_response_threshold))
                         {
                             auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
-                            output.emplace_back(
+                            row_outputs[y].emplace_back(
                                 std::make_tuple(
                                     octave_index,
                                     scale_index,
@@ -6760,7 +6762,7 @@ namespace TinyDIP
                         if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold))
                         {
                             auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
-                            output.emplace_back(
+                            row_outputs[y].emplace_back(
                                 std::make_tuple(
                                     octave_index,
                                     scale_index,
@@ -6771,6 +6773,10 @@ namespace TinyDIP
                     
                 }
             }
+            for (const auto& each_row : row_outputs)
+            {
+                output.insert(output.end(), each_row.begin(), each_row.end());
+            }
             return output;
         }
 
-- 
2.43.0


From 8aa0a248eebcfb6fd664c8ce66e498c12317f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:16 +0000
Subject: [PATCH 02/46] fix: get_potential_keypoint reads octaves and scales
 that were not generated

---
 image_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 18eb7fa..dac637b 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6941,10 +6941,10 @@ namespace TinyDIP
             {
                 // SERIAL VERSION (for std::execution::seq)
                 // No OpenMP, just plain loops.
-                for (int octave_index = 0; octave_index < octaves_count; ++octave_index)
+                for (int octave_index = 0; octave_index < static_cast<int>(octaves.size()); ++octave_index)
                 {
                     auto each_octave = octaves[octave_index];
-                    for (int scale_index = 0; scale_index < each_octave.size() - 2; ++scale_index)
+                    for (int scale_index = 0; scale_index < static_cast<int>(each_octave.size()) - 2; ++scale_index)
                     {
                         //  `find_local_extrema` function is already parallelized with OpenMP,
                         //  so we can call it directly here without additional parallelization.
@@ -6973,11 +6973,11 @@ namespace TinyDIP
             {
                 // PARALLEL VERSION (for std::execution::par, par_unseq)
                 #pragma omp parallel for
-                for (int octave_index = 0; octave_index < octaves_count; ++octave_index)
+                for (int octave_index = 0; octave_index < static_cast<int>(octaves.size()); ++octave_index)
                 {
                     auto each_octave = octaves[octave_index];
                     #pragma omp parallel for
-                    for (int scale_index = 0; scale_index < each_octave.size() - 2; ++scale_index)
+                    for (int scale_index = 0; scale_index < static_cast<int>(each_octave.size()) - 2; ++scale_index)
                     {
                         auto new_points = find_local_extrema(
                             each_octave[scale_index],
-- 
2.43.0


From 9111b247f12483f658094b1bd876a847138956ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:16 +0000
Subject: [PATCH 03/46] fix: get_potential_keypoint returns keypoints in thread
 completion order

---
 image_operations.h | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index dac637b..f6b49b5 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6972,14 +6972,18 @@ namespace TinyDIP
             else
             {
                 // PARALLEL VERSION (for std::execution::par, par_unseq)
+                // Every (octave, scale) pair has its own slot, concatenated in order afterwards,
+                // so that the result does not depend on which thread finishes first.
+                std::vector<std::vector<decltype(keypoints)>> partial_keypoints(octaves.size());
                 #pragma omp parallel for
                 for (int octave_index = 0; octave_index < static_cast<int>(octaves.size()); ++octave_index)
                 {
                     auto each_octave = octaves[octave_index];
+                    partial_keypoints[octave_index].resize(each_octave.size());
                     #pragma omp parallel for
                     for (int scale_index = 0; scale_index < static_cast<int>(each_octave.size()) - 2; ++scale_index)
                     {
-                        auto new_points = find_local_extrema(
+                        partial_keypoints[octave_index][scale_index] = find_local_extrema(
                             each_octave[scale_index],
                             each_octave[scale_index + 1],
                             each_octave[scale_index + 2],
@@ -6988,20 +6992,13 @@ namespace TinyDIP
                             contrast_check_threshold,
                             edge_response_threshold,
                             false);                     //  set `perform_keypoint_filtering` to false here, since we want to keep more keypoints to the original image
-                        // This block ensures only one thread at a time
-                        // can modify the 'keypoints' vector.
-                        #pragma omp critical
-                        {
-                            //if `append_range` function is supported
-                            #ifdef __cpp_lib_containers_ranges
-                            keypoints.append_range(new_points | std::views::as_rvalue);
-                            #else
-                            for (auto&& element : new_points)
-                            {
-                                keypoints.emplace_back(element);
-                            }
-                            #endif
-                        }
+                    }
+                }
+                for (const auto& each_octave_keypoints : partial_keypoints)
+                {
+                    for (const auto& new_points : each_octave_keypoints)
+                    {
+                        keypoints.insert(keypoints.end(), new_points.begin(), new_points.end());
                     }
                 }
             }
-- 
2.43.0


From 34345567df34ef73d137590018d87cb8b0767803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:16 +0000
Subject: [PATCH 04/46] fix: feature matches are returned in thread completion
 order

---
 image_operations.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index f6b49b5..2866359 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -7295,6 +7295,8 @@ namespace TinyDIP
                 }
             });
 
+        //  The order of insertion depends on scheduling; restore the order of the query descriptors
+        std::ranges::sort(matches);
         return matches;
     }
 
@@ -7369,6 +7371,8 @@ namespace TinyDIP
                 }
             });
 
+        //  The order of insertion depends on scheduling; restore the order of the query descriptors
+        std::ranges::sort(matches);
         return matches;
     }
 
-- 
2.43.0


From 0b92bd08983938f38ba483504db52d35dc7df7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:16 +0000
Subject: [PATCH 05/46] fix: windowed_filter filters in place while other
 windows still read the image

---
 image_operations.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 2866359..c79365b 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5806,6 +5806,8 @@ namespace TinyDIP
                 value_for_constant_padding
             );
         }
+        // Results go to a separate image: every window has to see the unfiltered neighbourhood
+        auto filtered_image = padded_image;
         // Iterate over all elements in the original image
         const std::size_t total_elements = input.count();
         #ifndef USE_OPENMP
@@ -5838,7 +5840,7 @@ namespace TinyDIP
             );
 
             // Apply filter and store result
-            padded_image.at(padded_indices) =
+            filtered_image.at(padded_indices) =
                 std::invoke(filter, window);
 
             // Progress reporting
@@ -5886,18 +5888,18 @@ namespace TinyDIP
             );
 
             // Apply filter and store result
-            padded_image.at_without_boundary_check(padded_indices) =
+            filtered_image.at_without_boundary_check(padded_indices) =
                 std::invoke(filter, window);
         }
         #endif
         // Crop padded image to original size
         std::vector<std::size_t> original_sizes = input.getSize();
         std::vector<std::size_t> centers;
-        for (auto& s : padded_image.getSize())
+        for (auto& s : filtered_image.getSize())
         {
             centers.emplace_back(s / 2);  // Center of padded image
         }
-        auto output = subimage(std::forward<ExecutionPolicy>(execution_policy), padded_image, original_sizes, centers);
+        auto output = subimage(std::forward<ExecutionPolicy>(execution_policy), filtered_image, original_sizes, centers);
         return output;
     }
 
-- 
2.43.0


From 6bed44533d4dbde0ae486d948f8f1ae0a3d43775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:54 +0000
Subject: [PATCH 06/46] fix: renaming a workspace variable to its own name
 destroys it

---
 main.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.h b/main.h
index d1a7c87..db5cd9d 100644
--- a/main.h
+++ b/main.h
@@ -422,8 +422,12 @@ struct Workspace
         if (auto it = memory_store.find(old_key); it != std::ranges::end(memory_store))
         {
             //  Use std::move to natively transfer ownership of the type-erased object with zero-copy
-            memory_store[std::string(sanitize_string_view(new_name))] = std::move(it->second);
-            memory_store.erase(it);
+            const std::string new_key(sanitize_string_view(new_name));
+            if (new_key != old_key)
+            {
+                memory_store[new_key] = std::move(it->second);
+                memory_store.erase(it);
+            }
             return true;
         }
         return false;
-- 
2.43.0


From 1142e81496d01551762fd4782c2e1ebb5c427c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:54 +0000
Subject: [PATCH 07/46] fix: a failed workspace store leaves an empty variable
 behind

---
 main.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.h b/main.h
index db5cd9d..50bc51f 100644
--- a/main.h
+++ b/main.h
@@ -372,8 +372,10 @@ struct Workspace
     template <typename T>
     void store(const std::string_view name, T&& item)
     {
+        //  Build the value first: if this throws, the workspace must not be left with an empty variable
+        std::any value(std::forward<T>(item));
         std::lock_guard<std::mutex> lock(mtx);
-        memory_store[std::string(sanitize_string_view(name))] = std::forward<T>(item);
+        memory_store.insert_or_assign(std::string(sanitize_string_view(name)), std::move(value));
     }
 
     template <typename T>
-- 
2.43.0


From 91d2d50e99cbc5edbde43abb5ebb248207f0c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:54 +0000
Subject: [PATCH 08/46] fix: Timer reports wrong elapsed time when the wall
 clock is stepped

---
 timer.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/timer.h b/timer.h
index 737543a..0e027db 100644
--- a/timer.h
+++ b/timer.h
@@ -12,20 +12,21 @@ namespace TinyDIP
     class Timer
     {
     private:
-        std::chrono::system_clock::time_point start, end;
+        //  Elapsed time comes from the monotonic clock: the wall clock may be stepped meanwhile
+        std::chrono::steady_clock::time_point start, end;
         std::chrono::duration<double> elapsed_seconds;
         std::time_t end_time;
     public:
         Timer()
         {
-            start = std::chrono::system_clock::now();
+            start = std::chrono::steady_clock::now();
         }
 
         ~Timer()
         {
-            end = std::chrono::system_clock::now();
+            end = std::chrono::steady_clock::now();
             elapsed_seconds = end - start;
-            end_time = std::chrono::system_clock::to_time_t(end);
+            end_time = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
             if (elapsed_seconds.count() != 1)
             {
                 //std::print(std::cout, "Computation finished at {} elapsed time: {} seconds.\n", std::ctime(&end_time), elapsed_seconds.count());
-- 
2.43.0


From 2b0ec248bef0c0e5097e14049f97a768daf195f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 09/46] fix: binary image writers report success for files that
 were not completely written

---
 image_io.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 4da6d62..0e10cac 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -352,10 +352,11 @@ namespace TinyDIP
         {    
             return -1;
         }        
-        fwrite(header, sizeof(unsigned char), 54, fp);
-        fwrite(image, sizeof(unsigned char), (size_t)(long)(xsize * 3 + FillingByte) * ysize, fp);
-        fclose(fp);
-        return 0;
+        const std::size_t image_size = (size_t)(long)(xsize * 3 + FillingByte) * ysize;
+        const bool header_written = fwrite(header, sizeof(unsigned char), 54, fp) == 54;
+        const bool image_written = fwrite(image, sizeof(unsigned char), image_size, fp) == image_size;
+        const bool closed = fclose(fp) == 0;
+        return (header_written && image_written && closed) ? 0 : -1;
     }
 
     unsigned char *array_to_raw_image(Image<RGB> input)
@@ -460,10 +461,11 @@ namespace TinyDIP
             {
                 return -1;
             }
-            fwrite(header, sizeof(unsigned char), 54, fp);
-            fwrite(image, sizeof(double), (size_t)(long)(xsize + FillingByte) * ysize, fp);
-            fclose(fp);
-            return 0;
+            const std::size_t image_size = (size_t)(long)(xsize + FillingByte) * ysize;
+            const bool header_written = fwrite(header, sizeof(unsigned char), 54, fp) == 54;
+            const bool image_written = fwrite(image, sizeof(double), image_size, fp) == image_size;
+            const bool closed = fclose(fp) == 0;
+            return (header_written && image_written && closed) ? 0 : -1;
         }
 
         int write(const char* filename, Image<double> input)
@@ -588,10 +590,11 @@ namespace TinyDIP
         {
             return -1;
         }
-        fwrite(header, sizeof(unsigned char), 54, fp);
-        fwrite(image, sizeof(double), (size_t)(long)(xsize * 3 + FillingByte) * ysize, fp);
-        fclose(fp);
-        return 0;
+        const std::size_t image_size = (size_t)(long)(xsize * 3 + FillingByte) * ysize;
+        const bool header_written = fwrite(header, sizeof(unsigned char), 54, fp) == 54;
+        const bool image_written = fwrite(image, sizeof(double), image_size, fp) == image_size;
+        const bool closed = fclose(fp) == 0;
+        return (header_written && image_written && closed) ? 0 : -1;
     }
 
     int hsv_write(const char* const filename, Image<HSV> input)
-- 
2.43.0


From 3cd1aa67651a75a24f4756b3f2b909dfa87a3ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 10/46] fix: binary image writers dereference a null buffer
 when memory runs out

---
 image_io.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/image_io.cpp b/image_io.cpp
index 0e10cac..3bf1c7f 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -309,6 +309,10 @@ namespace TinyDIP
     int bmp_write(const char *filename, Image<RGB> input)
     {
         auto image_data = TinyDIP::array_to_raw_image(input);
+        if (image_data == NULL)
+        {
+            return -1;
+        }
         auto sizex = input.getWidth();
         auto sizey = input.getHeight();
         auto result = TinyDIP::bmp_write(filename, sizex, sizey, image_data);
@@ -471,6 +475,10 @@ namespace TinyDIP
         int write(const char* filename, Image<double> input)
         {
             auto image_data = TinyDIP::double_image::array_to_raw_image(input);
+            if (image_data == NULL)
+            {
+                return -1;
+            }
             auto sizex = input.getWidth();
             auto sizey = input.getHeight();
             auto result = TinyDIP::double_image::write(filename, sizex, sizey, image_data);
@@ -600,6 +608,10 @@ namespace TinyDIP
     int hsv_write(const char* const filename, Image<HSV> input)
     {
         auto image_data = TinyDIP::double_image::array_to_raw_image(input);
+        if (image_data == NULL)
+        {
+            return -1;
+        }
         auto sizex = input.getWidth();
         auto sizey = input.getHeight();
         auto result = TinyDIP::hsv_write_detail(filename, sizex, sizey, image_data);
-- 
2.43.0


From c4009c9ba1dff1657f486037987fa720c7d8846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 11/46] fix: row padding of double and HSV files is written
 from uninitialised memory

---
 image_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 3bf1c7f..ba61a99 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -412,7 +412,7 @@ namespace TinyDIP
             unsigned char FillingByte;
             FillingByte = bmp_filling_byte_calc(xsize, 8);
             double* output;
-            output = static_cast<double*>(malloc(sizeof * output * (xsize + FillingByte) * ysize));
+            output = static_cast<double*>(calloc((xsize + FillingByte) * ysize, sizeof * output));
             if (output == NULL)
             {
                 std::cerr << "Memory allocation error!";
@@ -543,7 +543,7 @@ namespace TinyDIP
             unsigned char FillingByte;
             FillingByte = bmp_filling_byte_calc(xsize, 8);
             double* output;
-            output = static_cast<double*>(malloc(sizeof * output * (xsize * 3 + FillingByte) * ysize));
+            output = static_cast<double*>(calloc((xsize * 3 + FillingByte) * ysize, sizeof * output));
             if (output == NULL)
             {
                 std::cerr << "Memory allocation error!";
-- 
2.43.0


From 5f32dbd4d65911cdcf4c96295359290af30cc2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 12/46] fix: CSV, PNM and LaTeX writers do not notice failed
 writes

---
 image_io.h         | 15 +++++++++++++++
 image_operations.h |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/image_io.h b/image_io.h
index c3f0a0d..c8a9105 100644
--- a/image_io.h
+++ b/image_io.h
@@ -99,6 +99,11 @@ namespace TinyDIP
             {
                 file << row_strings[y] << '\n';
             }
+            file.close();
+            if (!file)
+            {
+                throw std::runtime_error("Could not write the complete file!\n");
+            }
         }
 
         // -------------------------------------------------------------------------
@@ -150,6 +155,11 @@ namespace TinyDIP
             {
                 file << row_strings[y] << '\n';
             }
+            file.close();
+            if (!file)
+            {
+                throw std::runtime_error("Could not write the complete file!\n");
+            }
         }
 
         //  write_to_csv template function implementation
@@ -596,6 +606,11 @@ namespace TinyDIP
                     }
                 }
             }
+            file.close();
+            if (!file)
+            {
+                throw std::runtime_error("Could not write the complete file: " + file_path.string());
+            }
         }
     }
 
diff --git a/image_operations.h b/image_operations.h
index c79365b..9102511 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1771,6 +1771,10 @@ namespace TinyDIP
         }
         newfile << "\\end{tikzpicture}\n";
         newfile.close();
+        if (!newfile)
+        {
+            throw std::runtime_error("Could not write the complete file: " + filename);
+        }
         return;
     }
 
-- 
2.43.0


From 73d227c77cc6eb27117c61d6a230a277d4a3e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:36 +0000
Subject: [PATCH 13/46] fix: pnm::write truncates the target file before
 rejecting an unsupported format

---
 image_io.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/image_io.h b/image_io.h
index c8a9105..81676aa 100644
--- a/image_io.h
+++ b/image_io.h
@@ -554,15 +554,15 @@ namespace TinyDIP
             const std::string& magic = "P3", 
             const int max_value = 255)
         {
-            std::ofstream file(file_path, std::ios::binary);
-            if (!file.is_open())
+            if (magic != "P1" && magic != "P2" && magic != "P3")
             {
-                throw std::runtime_error("Could not open file for writing: " + file_path.string());
+                throw std::invalid_argument("Unsupported magic number for writing. Please use P1, P2, or P3.");
             }
 
-            if (magic != "P1" && magic != "P2" && magic != "P3")
+            std::ofstream file(file_path, std::ios::binary);
+            if (!file.is_open())
             {
-                throw std::invalid_argument("Unsupported magic number for writing. Please use P1, P2, or P3.");
+                throw std::runtime_error("Could not open file for writing: " + file_path.string());
             }
 
             const std::size_t width = image.getWidth();
-- 
2.43.0


From d590f942de182fef9e3a459eaefd536c3e3ad46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:39 +0000
Subject: [PATCH 14/46] fix: BMP reader makes up pixels when the file is
 truncated, unreadable or has an invalid size

---
 image_io.cpp | 138 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 94 insertions(+), 44 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index ba61a99..7055a26 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -42,8 +42,11 @@ namespace TinyDIP
             return -1;
         }             
         unsigned char header[54];
-        auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-        (void)returnValue;
+        if (fread(header, sizeof(unsigned char), 54, fp) != 54)
+        {
+            fclose(fp);
+            return -1;
+        }
         unsigned long output;
         output = header[18] + 
             ((unsigned long)header[19] << 8) +
@@ -73,8 +76,11 @@ namespace TinyDIP
             return -1;
         }             
         unsigned char header[54];
-        auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-        (void)returnValue;
+        if (fread(header, sizeof(unsigned char), 54, fp) != 54)
+        {
+            fclose(fp);
+            return -1;
+        }
         unsigned long output; 
         output= header[22] + 
             ((unsigned long)header[23] << 8) +
@@ -118,9 +124,14 @@ namespace TinyDIP
 
         if (biBitCount == 24)
         {
-            fseek(fp, bfOffBits, SEEK_SET);
-            result = fread(image, sizeof(unsigned char), (size_t)(long)(xsize * 3 + filling_bytes) * ysize, fp);
-            (void)result;
+            const std::size_t image_size = (static_cast<std::size_t>(xsize) * 3 + filling_bytes) * ysize;
+            const std::size_t required_size = image_size - ((ysize > 0) ? filling_bytes : 0);    // The padding of the last row carries no pixel
+            if (fseek(fp, bfOffBits, SEEK_SET) != 0 ||
+                fread(image, sizeof(unsigned char), image_size, fp) < required_size)
+            {
+                fclose(fp);
+                return -1;
+            }
         }
         else if (biBitCount == 8)
         {
@@ -132,36 +143,54 @@ namespace TinyDIP
             // Read Color Palette
             if (palette_size > 0)
             {
-                fseek(fp, 14 + header_size, SEEK_SET);
-                result = fread(palette, 1, palette_size, fp);
+                if (fseek(fp, 14 + header_size, SEEK_SET) != 0 ||
+                    fread(palette, 1, palette_size, fp) != static_cast<std::size_t>(palette_size))
+                {
+                    fclose(fp);
+                    return -1;
+                }
             }
 
-            fseek(fp, bfOffBits, SEEK_SET);
+            if (fseek(fp, bfOffBits, SEEK_SET) != 0)
+            {
+                fclose(fp);
+                return -1;
+            }
             
             // 8-bit BMP images are padded to a multiple of 4 bytes per row
             int padding_8 = (4 - (xsize % 4)) % 4;
             
             unsigned char* row_buffer = static_cast<unsigned char*>(malloc(xsize + padding_8));
-            if (row_buffer != NULL)
+            if (row_buffer == NULL)
+            {
+                fclose(fp);
+                return -1;
+            }
+            else
             {
                 for (int y = 0; y < ysize; ++y)
                 {
                     memset(row_buffer, 0, xsize + padding_8);
-                    result = fread(row_buffer, 1, xsize + padding_8, fp);
+                    if (fread(row_buffer, 1, xsize + padding_8, fp) < static_cast<std::size_t>(xsize))
+                    {
+                        free(row_buffer);
+                        fclose(fp);
+                        return -1;
+                    }
                     
                     for (int x = 0; x < xsize; ++x)
                     {
                         unsigned char index = row_buffer[x];
                         // Convert 8-bit palette index into 24-bit standard Buffer (Blue, Green, Red)
-                        image[y * (xsize * 3 + filling_bytes) + x * 3 + 0] = palette[index * 4 + 0]; // Blue
-                        image[y * (xsize * 3 + filling_bytes) + x * 3 + 1] = palette[index * 4 + 1]; // Green
-                        image[y * (xsize * 3 + filling_bytes) + x * 3 + 2] = palette[index * 4 + 2]; // Red
+                        image[static_cast<std::size_t>(y) * (xsize * 3 + filling_bytes) + x * 3 + 0] = palette[index * 4 + 0]; // Blue
+                        image[static_cast<std::size_t>(y) * (xsize * 3 + filling_bytes) + x * 3 + 1] = palette[index * 4 + 1]; // Green
+                        image[static_cast<std::size_t>(y) * (xsize * 3 + filling_bytes) + x * 3 + 2] = palette[index * 4 + 2]; // Red
                     }
                     
                     // Fill output padding bytes with 0 for the 24-bit alignment
                     for (int p = 0; p < filling_bytes; ++p)
                     {
-                        image[y * (xsize * 3 + filling_bytes) + xsize * 3 + p] = 0;
+                        image[static_cast<std::size_t>(y) * (xsize * 3 + filling_bytes) + xsize * 3 + p] = 0;
                     }
                 }
                 free(row_buffer);
@@ -170,6 +199,8 @@ namespace TinyDIP
         else
         {
             printf("Unsupported BMP bit depth: %d\n", biBitCount);
+            fclose(fp);
+            return -1;
         }
 
         fclose(fp); 
@@ -205,13 +236,24 @@ namespace TinyDIP
             throw std::runtime_error("Fail to read BMP file!");
             return output;
         }             
+        const long file_size = (fseek(fp, 0, SEEK_END) == 0) ? ftell(fp) : -1;
+        fclose(fp);
         output.FILENAME = fname_bmp;
-        int OriginSizeX = bmp_read_x_size(output.FILENAME.string().c_str(),true);
-        int OriginSizeY = bmp_read_y_size(output.FILENAME.string().c_str(),true);
-        if( (OriginSizeX == -1) || (OriginSizeY == -1) )
+        const unsigned long SizeX = bmp_read_x_size(output.FILENAME.string().c_str(),true);
+        const unsigned long SizeY = bmp_read_y_size(output.FILENAME.string().c_str(),true);
+        if( (SizeX == static_cast<unsigned long>(-1)) || (SizeY == static_cast<unsigned long>(-1)) )
         {     
             std::cerr << "Fail to fetch information of image!";
-            return output;
+            throw std::runtime_error("Fail to read BMP file!");
+        }
+        int OriginSizeX = static_cast<int>(SizeX);
+        int OriginSizeY = static_cast<int>(SizeY);
+        //  The dimensions come from the file: they cannot describe more pixels than the file holds
+        const std::int64_t Rows = std::abs(static_cast<std::int64_t>(OriginSizeY));
+        if ((OriginSizeX < 0) || (OriginSizeX > file_size) || (Rows > file_size) || (OriginSizeX * Rows > file_size))
+        {
+            std::cerr << "Invalid image size in file: " << fname_bmp.string() << "!\n";
+            throw std::runtime_error("Fail to read BMP file!");
         }
         //  Deal with the negative height
         if (OriginSizeY < 0)
@@ -223,27 +265,31 @@ namespace TinyDIP
             printf("Height of the input image: %d\n", output.YSIZE);
             printf("Size of the input image(Byte): %ld\n", static_cast<size_t>(output.XSIZE * output.YSIZE * 3));
             output.FILLINGBYTE = bmp_filling_byte_calc(output.XSIZE);
-            output.IMAGE_DATA = static_cast<unsigned char*>(malloc(sizeof *output.IMAGE_DATA * (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE));
-            if (output.IMAGE_DATA == NULL)
+            std::unique_ptr<unsigned char, decltype(&std::free)> ImageData(
+                static_cast<unsigned char*>(malloc(sizeof *output.IMAGE_DATA * (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE)), &std::free);
+            if (ImageData == nullptr)
             { 
                 std::cerr << "Memory allocation error!";
-                return output;
+                throw std::runtime_error("Fail to read BMP file!");
             }
-            unsigned char *OriginImageData;
-            OriginImageData = static_cast<unsigned char *>(malloc(sizeof *OriginImageData * (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE));
-            if (OriginImageData == NULL)
+            std::unique_ptr<unsigned char, decltype(&std::free)> OriginImageData(
+                static_cast<unsigned char*>(malloc(sizeof *output.IMAGE_DATA * (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE)), &std::free);
+            if (OriginImageData == nullptr)
             { 
                 std::cerr << "Memory allocation error!";
-                return output;
+                throw std::runtime_error("Fail to read BMP file!");
             }
             for(int i = 0; i < ((output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE);i++)
             {
-                OriginImageData[i] = 255;
+                OriginImageData.get()[i] = 255;
+            }
+            if (bmp_read_detail(OriginImageData.get(), output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true) != 0)
+            {
+                throw std::runtime_error("Fail to read BMP file!");
             }
-            bmp_read_detail(OriginImageData, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true);
             for (size_t loop = 0; loop < (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE; loop++)
             {
-                printf("%d\n", OriginImageData[loop]);
+                printf("%d\n", OriginImageData.get()[loop]);
                 auto returnValue = system("read -n 1 -s -p \"Press any key to continue...\n\"");
                 (void)returnValue;
             }
@@ -252,18 +298,18 @@ namespace TinyDIP
                 for(int x = 0; x < output.XSIZE; x++)
                 {
                     for (int color = 0; color < 3; color++) {
-                        output.IMAGE_DATA[3 * (y * output.XSIZE + x) + y * output.FILLINGBYTE + (2 - color)] = 
-                            OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + (output.YSIZE - y - 1) * output.FILLINGBYTE + (2 - color)];
+                        ImageData.get()[3 * (y * output.XSIZE + x) + y * output.FILLINGBYTE + (2 - color)] = 
+                            OriginImageData.get()[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + (output.YSIZE - y - 1) * output.FILLINGBYTE + (2 - color)];
                     }
                     printf("Pixel (%d, %d): %d, %d, %d\n", x, y, 
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 2],
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 1],
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 0]);
+                    OriginImageData.get()[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 2],
+                    OriginImageData.get()[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 1],
+                    OriginImageData.get()[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 0]);
                     auto returnValue = system("read -n 1 -s -p \"Press any key to continue...\n\"");
                     (void)returnValue;
                 }
             }
-            free(OriginImageData);
+            output.IMAGE_DATA = ImageData.release();
             return output;
         }
 
@@ -273,26 +319,30 @@ namespace TinyDIP
         printf("Height of the input image: %d\n",output.YSIZE);
         printf("Size of the input image(Byte): %ld\n", static_cast<size_t>(output.XSIZE * output.YSIZE * 3));
         output.FILLINGBYTE = bmp_filling_byte_calc(output.XSIZE);
-        output.IMAGE_DATA = static_cast<unsigned char *>(malloc(sizeof *output.IMAGE_DATA * (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE));
-        if (output.IMAGE_DATA == NULL)
+        std::unique_ptr<unsigned char, decltype(&std::free)> ImageData(
+            static_cast<unsigned char*>(malloc(sizeof *output.IMAGE_DATA * (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE)), &std::free);
+        if (ImageData == nullptr)
         { 
             std::cerr << "Memory allocation error!";
-            return output;
+            throw std::runtime_error("Fail to read BMP file!");
         }     
         for(int i = 0; i < ((output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE);i++)
         {
-            output.IMAGE_DATA[i] = 255;
+            ImageData.get()[i] = 255;
         }
-        bmp_read_detail(output.IMAGE_DATA, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true);
+        if (bmp_read_detail(ImageData.get(), output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true) != 0)
+        {
+            throw std::runtime_error("Fail to read BMP file!");
+        }
+        output.IMAGE_DATA = ImageData.release();
         return output;
     }
 
     Image<RGB> bmp_read(const char* filename, const bool extension = true)
     {
         auto image = bmp_file_read(filename, extension);
-        auto output = TinyDIP::raw_image_to_array(image.XSIZE, image.YSIZE, image.IMAGE_DATA);
-        free(image.IMAGE_DATA);
-        return output;
+        const std::unique_ptr<unsigned char, decltype(&std::free)> image_data(image.IMAGE_DATA, &std::free);
+        return TinyDIP::raw_image_to_array(image.XSIZE, image.YSIZE, image_data.get());
     }
 
     Image<RGB> bmp_read(std::string filename, const bool extension = true)
-- 
2.43.0


From b80653dee9b82d4ab79ef61e9f59645f5e4c7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:39 +0000
Subject: [PATCH 15/46] fix: reading a top-down BMP runs a shell and waits for
 a key press per byte and pixel

---
 image_io.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 7055a26..bbf2ead 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -287,12 +287,6 @@ namespace TinyDIP
             {
                 throw std::runtime_error("Fail to read BMP file!");
             }
-            for (size_t loop = 0; loop < (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE; loop++)
-            {
-                printf("%d\n", OriginImageData.get()[loop]);
-                auto returnValue = system("read -n 1 -s -p \"Press any key to continue...\n\"");
-                (void)returnValue;
-            }
             for(int y = 0; y < output.YSIZE; y++)
             {
                 for(int x = 0; x < output.XSIZE; x++)
@@ -301,12 +295,6 @@ namespace TinyDIP
                         ImageData.get()[3 * (y * output.XSIZE + x) + y * output.FILLINGBYTE + (2 - color)] = 
                             OriginImageData.get()[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + (output.YSIZE - y - 1) * output.FILLINGBYTE + (2 - color)];
                     }
-                    printf("Pixel (%d, %d): %d, %d, %d\n", x, y, 
-                    OriginImageData.get()[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 2],
-                    OriginImageData.get()[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 1],
-                    OriginImageData.get()[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 0]);
-                    auto returnValue = system("read -n 1 -s -p \"Press any key to continue...\n\"");
-                    (void)returnValue;
                 }
             }
             output.IMAGE_DATA = ImageData.release();
-- 
2.43.0


From 299bb675856f7450aa26dfbb5a793f4c3f383b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:15 +0000
Subject: [PATCH 16/46] fix: double and HSV readers make up pixels when the
 file is missing, truncated or has an invalid size

---
 image_io.cpp | 58 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index bbf2ead..c62b176 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -541,25 +541,30 @@ namespace TinyDIP
             if (fp == NULL)
             {
                 std::cerr << "Fail to read file: " << target_path.string() << "!\n";
-                return TinyDIP::Image<double>(0, 0);
+                throw std::runtime_error("Fail to read image file!");
             }
-            int OriginSizeX = bmp_read_x_size(target_path.string().c_str(), true);
-            int OriginSizeY = bmp_read_y_size(target_path.string().c_str(), true);
-            if ((OriginSizeX == -1) || (OriginSizeY == -1))
+            const std::unique_ptr<FILE, decltype(&fclose)> file(fp, &fclose);
+            const long file_size = (fseek(fp, 0, SEEK_END) == 0) ? ftell(fp) : -1;
+            const int OriginSizeX = static_cast<int>(bmp_read_x_size(target_path.string().c_str(), true));
+            const int OriginSizeY = static_cast<int>(bmp_read_y_size(target_path.string().c_str(), true));
+            //  The dimensions come from the file: they cannot describe more pixels than the file holds
+            if ((OriginSizeX < 0) || (OriginSizeY < 0) || (OriginSizeX > file_size) || (OriginSizeY > file_size) ||
+                (static_cast<std::int64_t>(OriginSizeX) * OriginSizeY > file_size))
             {
                 std::cerr << "Fail to fetch information of image!";
-                return TinyDIP::Image<double>(0, 0);
+                throw std::runtime_error("Fail to read image file!");
             }
             printf("Width of the input image: %d\n", OriginSizeX);
             printf("Height of the input image: %d\n", OriginSizeY);
             printf("Size of the input image: %ld\n", static_cast<size_t>(OriginSizeX * OriginSizeY));
-            unsigned char header[54];
-            auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-            (void)returnValue;
-            double* image;
             unsigned char FillingByte = bmp_filling_byte_calc(OriginSizeX, 8);
-            image = static_cast<double*>(malloc(sizeof * image * (OriginSizeX + FillingByte) * OriginSizeY));
-            returnValue = fread(image, sizeof(double), (size_t)(double)(OriginSizeX + FillingByte) * OriginSizeY, fp);
+            const std::size_t image_size = (static_cast<std::size_t>(OriginSizeX) + FillingByte) * OriginSizeY;
+            const std::unique_ptr<double, decltype(&std::free)> image_data(static_cast<double*>(malloc(sizeof(double) * image_size)), &std::free);
+            double* const image = image_data.get();
+            if ((image == NULL) || (fseek(fp, 54, SEEK_SET) != 0) || (fread(image, sizeof(double), image_size, fp) != image_size))
+            {
+                throw std::runtime_error("Fail to read image file!");
+            }
             TinyDIP::Image<double> output(OriginSizeX, OriginSizeY);
             for (int y = 0; y < OriginSizeY; y++)
             {
@@ -569,8 +574,6 @@ namespace TinyDIP
                         image[(y * OriginSizeX + x) + y * FillingByte];
                 }
             }
-            free(image);
-            fclose(fp);
             return output;
         }
 
@@ -674,26 +677,30 @@ namespace TinyDIP
         if (fp == NULL)
         {
             std::cerr << "Fail to read file: " << target_path.string() << "!\n";
-            return Image<HSV>(0, 0);
+            throw std::runtime_error("Fail to read image file!");
         }
-        int OriginSizeX = bmp_read_x_size(target_path.string().c_str(), true);
-        int OriginSizeY = bmp_read_y_size(target_path.string().c_str(), true);
-        if ((OriginSizeX == -1) || (OriginSizeY == -1))
+        const std::unique_ptr<FILE, decltype(&fclose)> file(fp, &fclose);
+        const long file_size = (fseek(fp, 0, SEEK_END) == 0) ? ftell(fp) : -1;
+        const int OriginSizeX = static_cast<int>(bmp_read_x_size(target_path.string().c_str(), true));
+        const int OriginSizeY = static_cast<int>(bmp_read_y_size(target_path.string().c_str(), true));
+        //  The dimensions come from the file: they cannot describe more pixels than the file holds
+        if ((OriginSizeX < 0) || (OriginSizeY < 0) || (OriginSizeX > file_size) || (OriginSizeY > file_size) ||
+            (static_cast<std::int64_t>(OriginSizeX) * OriginSizeY > file_size))
         {
             std::cerr << "Fail to fetch information of image!";
-            return Image<HSV>(0, 0);
+            throw std::runtime_error("Fail to read image file!");
         }
         printf("Width of the input image: %d\n", OriginSizeX);
         printf("Height of the input image: %d\n", OriginSizeY);
         printf("Size of the input image: %ld\n", static_cast<size_t>(OriginSizeX * OriginSizeY * 3));
-        unsigned char header[54];
-        auto returnValue = fread(header, sizeof(unsigned char), 54, fp);
-        (void)returnValue;
-        double* image;
         unsigned char filling_bytes = bmp_filling_byte_calc(OriginSizeX, 8);
-        image = static_cast<double*>(malloc(sizeof * image * (OriginSizeX * 3 + filling_bytes) * OriginSizeY));
-        returnValue = fread(image, sizeof(double), (size_t)(long)(OriginSizeX * 3 + filling_bytes) * OriginSizeY, fp);
-        fclose(fp);
+        const std::size_t image_size = (static_cast<std::size_t>(OriginSizeX) * 3 + filling_bytes) * OriginSizeY;
+        const std::unique_ptr<double, decltype(&std::free)> image_data(static_cast<double*>(malloc(sizeof(double) * image_size)), &std::free);
+        double* const image = image_data.get();
+        if ((image == NULL) || (fseek(fp, 54, SEEK_SET) != 0) || (fread(image, sizeof(double), image_size, fp) != image_size))
+        {
+            throw std::runtime_error("Fail to read image file!");
+        }
         auto output = Image<HSV>(OriginSizeX, OriginSizeY);
         for (int y = 0; y < OriginSizeY; y++)
         {
@@ -705,7 +712,6 @@ namespace TinyDIP
                 }
             }
         }
-        free(image);
         return output;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 59e3ce462dd694261deb00a676052d3810cdda69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:50 +0000
Subject: [PATCH 17/46] fix: CSV reader terminates on malformed cells and makes
 up pixels for short rows and failed reads

---
 image_io.h | 52 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/image_io.h b/image_io.h
index 81676aa..9100843 100644
--- a/image_io.h
+++ b/image_io.h
@@ -179,15 +179,33 @@ namespace TinyDIP
             const std::vector<std::string>& row_strings;
             TinyDIP::Image<ElementT>& image;
             const std::size_t width;
+            std::vector<unsigned char>& row_is_valid;   //  one flag per row, each row is parsed by exactly one thread
 
+            //  An exception must not leave the parallel region, the flag of the row is cleared instead
             void operator()(const std::size_t y) const
+            {
+                try
+                {
+                    row_is_valid[y] = parse(y) ? 1 : 0;
+                }
+                catch (const std::exception&)
+                {
+                    row_is_valid[y] = 0;
+                }
+            }
+
+            bool parse(const std::size_t y) const
             {
                 std::istringstream iss(row_strings[y]);
                 std::string cell;
                 std::size_t x = 0;
                 
-                while (std::getline(iss, cell, ',') && x < width)
+                while (std::getline(iss, cell, ','))
                 {
+                    if (x >= width)
+                    {
+                        return false;
+                    }
                     if constexpr (std::same_as<ElementT, double>)
                     {
                         image.at_without_boundary_check(x, y) = std::stod(cell);
@@ -196,11 +214,23 @@ namespace TinyDIP
                     {
                         std::istringstream cell_stream(cell);
                         ElementT val{};
-                        cell_stream >> val;
+                        if (!(cell_stream >> val))
+                        {
+                            return false;
+                        }
                         image.at_without_boundary_check(x, y) = val;
                     }
                     ++x;
                 }
+                return x == width;
+            }
+
+            void check() const
+            {
+                if (std::ranges::any_of(row_is_valid, [](const unsigned char valid) { return valid == 0; }))
+                {
+                    throw std::runtime_error("Malformed row in CSV file!\n");
+                }
             }
         };
 
@@ -230,6 +260,11 @@ namespace TinyDIP
                 }
             }
 
+            if (file.bad())
+            {
+                throw std::runtime_error("Could not read the complete file!\n");
+            }
+
             if (lines.empty())
             {
                 return TinyDIP::Image<ElementT>();
@@ -250,10 +285,12 @@ namespace TinyDIP
             std::vector<std::size_t> indices(height);
             std::ranges::iota(indices, 0);
 
-            ParseCSVRow<ElementT> parser{ lines, output, width };
+            std::vector<unsigned char> row_is_valid(height, 0);
+            ParseCSVRow<ElementT> parser{ lines, output, width, row_is_valid };
 
             // Process row strings into double values in parallel
             std::for_each(std::forward<ExecutionPolicy>(policy), std::ranges::begin(indices), std::ranges::end(indices), parser);
+            parser.check();
 
             return output;
         }
@@ -282,6 +319,11 @@ namespace TinyDIP
                 }
             }
 
+            if (file.bad())
+            {
+                throw std::runtime_error("Could not read the complete file!\n");
+            }
+
             if (lines.empty())
             {
                 return TinyDIP::Image<ElementT>();
@@ -298,13 +340,15 @@ namespace TinyDIP
             }
 
             TinyDIP::Image<ElementT> output(width, height);
-            ParseCSVRow<ElementT> parser{ lines, output, width };
+            std::vector<unsigned char> row_is_valid(height, 0);
+            ParseCSVRow<ElementT> parser{ lines, output, width, row_is_valid };
 
             #pragma omp parallel for
             for (std::ptrdiff_t y = 0; y < static_cast<std::ptrdiff_t>(height); ++y)
             {
                 parser(static_cast<std::size_t>(y));
             }
+            parser.check();
 
             return output;
         }
-- 
2.43.0


From 6775e82a9e7ec19813ed3b1ab1907d4f45901eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:15 +0000
Subject: [PATCH 18/46] fix: PNM reader reads out of bounds when the header's
 dimensions overflow

---
 image_io.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/image_io.h b/image_io.h
index 9100843..fbd4639 100644
--- a/image_io.h
+++ b/image_io.h
@@ -499,7 +499,13 @@ namespace TinyDIP
                 max_value = std::stoi(read_pnm_token(file));
             }
 
-            const int in_bits = static_cast<int>(std::log2(max_value + 1));
+            if (max_value < 1 ||
+                (width != 0 && height > std::numeric_limits<std::size_t>::max() / 3 / sizeof(RGB) / width))
+            {
+                throw std::runtime_error("Invalid PNM header: " + file_path.string());
+            }
+
+            const int in_bits = static_cast<int>(std::log2(max_value + 1.0));
             const int shift_bit = outbits - in_bits;
 
             const std::size_t pixel_count = width * height;
@@ -556,7 +562,13 @@ namespace TinyDIP
                 max_value = std::stoi(read_pnm_token(file));
             }
 
-            const int in_bits = static_cast<int>(std::log2(max_value + 1));
+            if (max_value < 1 ||
+                (width != 0 && height > std::numeric_limits<std::size_t>::max() / 3 / sizeof(RGB) / width))
+            {
+                throw std::runtime_error("Invalid PNM header: " + file_path.string());
+            }
+
+            const int in_bits = static_cast<int>(std::log2(max_value + 1.0));
             const int shift_bit = outbits - in_bits;
 
             const std::size_t pixel_count = width * height;
-- 
2.43.0


From 81785409389cf674df9588c3ba64c853ef4ec106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:04 +0000
Subject: [PATCH 19/46] fix: the image saver of the command line ignores failed
 writes

---
 main.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/main.h b/main.h
index 50bc51f..2d6f579 100644
--- a/main.h
+++ b/main.h
@@ -677,6 +677,14 @@ public:
 
     struct Saver
     {
+        static void require_written(const int result, const std::filesystem::path& path)
+        {
+            if (result != 0)
+            {
+                throw std::runtime_error("Failed to write image file: " + path.string());
+            }
+        }
+
         template <typename ImageType>
         constexpr void operator()(const std::string_view arg, Workspace& ws, ImageType&& img) const
         {
@@ -706,7 +714,7 @@ public:
                     }
                     else
                     {
-                        TinyDIP::double_image::write(base_path.string().c_str(), std::forward<ImageType>(img));
+                        require_written(TinyDIP::double_image::write(base_path.string().c_str(), std::forward<ImageType>(img)), output_filepath);
                     }
                 }
                 else if constexpr (std::is_same_v<std::decay_t<ImageType>, TinyDIP::Image<TinyDIP::RGB>>)
@@ -717,12 +725,12 @@ public:
                     }
                     else
                     {
-                        TinyDIP::bmp_write(base_path.string().c_str(), std::forward<ImageType>(img));
+                        require_written(TinyDIP::bmp_write(base_path.string().c_str(), std::forward<ImageType>(img)), output_filepath);
                     }
                 }
                 else if constexpr (std::is_same_v<std::decay_t<ImageType>, TinyDIP::Image<TinyDIP::HSV>>)
                 {
-                    TinyDIP::hsv_write(base_path.string().c_str(), std::forward<ImageType>(img));
+                    require_written(TinyDIP::hsv_write(base_path.string().c_str(), std::forward<ImageType>(img)), output_filepath);
                 }
                 else
                 {
-- 
2.43.0


From e9ebb658f6380b7f215695c0f3f16a4dae956f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:04 +0000
Subject: [PATCH 20/46] fix: save_workspace reports success for variables it
 could not write

---
 main.h | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/main.h b/main.h
index 2d6f579..a170141 100644
--- a/main.h
+++ b/main.h
@@ -4422,6 +4422,20 @@ namespace handlers
 
         os << "Saving workspace bundle to " << dir_path.string() << "...\n";
 
+        bool all_saved = true;
+        auto report_save = [&](const int result, const std::string& name, const std::string& file_name)
+        {
+            if (result == 0)
+            {
+                os << "  Saved $" << name << " -> " << file_name << "\n";
+            }
+            else
+            {
+                all_saved = false;
+                os << "  Error: failed to save $" << name << " -> " << file_name << "\n";
+            }
+        };
+
         for (const auto& [name, value] : workspace.memory_store)
         {
             auto try_save_image = [&]<typename T>() -> bool
@@ -4433,18 +4447,15 @@ namespace handlers
                     
                     if constexpr (std::is_same_v<T, TinyDIP::Image<TinyDIP::RGB>>)
                     {
-                        TinyDIP::bmp_write(file_path.string().c_str(), *img_ptr); 
-                        os << "  Saved $" << name << " -> " << file_path.string() << ".bmp\n";
+                        report_save(TinyDIP::bmp_write(file_path.string().c_str(), *img_ptr), name, file_path.string() + ".bmp");
                     }
                     else if constexpr (std::is_same_v<T, TinyDIP::Image<double>>)
                     {
-                        TinyDIP::double_image::write(file_path.string().c_str(), *img_ptr); 
-                        os << "  Saved $" << name << " -> " << file_path.string() << ".dbmp\n";
+                        report_save(TinyDIP::double_image::write(file_path.string().c_str(), *img_ptr), name, file_path.string() + ".dbmp");
                     }
                     else if constexpr (std::is_same_v<T, TinyDIP::Image<TinyDIP::HSV>>)
                     {
-                        TinyDIP::hsv_write(file_path.string().c_str(), *img_ptr); 
-                        os << "  Saved $" << name << " -> " << file_path.string() << ".hsv\n";
+                        report_save(TinyDIP::hsv_write(file_path.string().c_str(), *img_ptr), name, file_path.string() + ".hsv");
                     }
                     return true;
                 }
@@ -4479,7 +4490,14 @@ namespace handlers
                 }
             }
         }
-        os << "Workspace saved successfully.\n";
+        if (all_saved)
+        {
+            os << "Workspace saved successfully.\n";
+        }
+        else
+        {
+            os << "Error: Workspace was not saved completely.\n";
+        }
     }
 
     //  subtract template function implementation
-- 
2.43.0


From 43055f360aae00505cb78ac94d4c024d1af17dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:04 +0000
Subject: [PATCH 21/46] fix: one damaged file keeps load_workspace from loading
 the rest of the bundle

---
 main.h | 70 ++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/main.h b/main.h
index a170141..2c964f2 100644
--- a/main.h
+++ b/main.h
@@ -3510,6 +3510,7 @@ namespace handlers
 
         os << "Loading workspace bundle from " << dir_path.string() << "...\n";
 
+        bool all_loaded = true;
         for (const auto& entry : std::filesystem::directory_iterator(dir_path))
         {
             if (entry.is_regular_file())
@@ -3517,39 +3518,54 @@ namespace handlers
                 const std::string name = entry.path().stem().string();
                 const std::string ext = entry.path().extension().string();
 
-                if (ext == ".bmp")
-                {
-                    auto img = TinyDIP::bmp_read(entry.path().string().c_str(), true);
-                    workspace.store(name, std::move(img));
-                    os << "  Loaded " << entry.path().filename().string() << " -> $" << name << "\n";
-                }
-                else if (ext == ".dbmp")
-                {
-                    auto img = TinyDIP::double_image::read(entry.path().string().c_str(), true);
-                    workspace.store(name, std::move(img));
-                    os << "  Loaded " << entry.path().filename().string() << " -> $" << name << "\n";
-                }
-                else if (ext == ".hsv")
-                {
-                    auto img = TinyDIP::hsv_read(entry.path().string().c_str(), true);
-                    workspace.store(name, std::move(img));
-                    os << "  Loaded " << entry.path().filename().string() << " -> $" << name << "\n";
-                }
-                else if (ext == ".csv")
+                try
                 {
-                    auto img = TinyDIP::double_image::read_from_csv(entry.path().string().c_str());
-                    workspace.store(name, std::move(img));
-                    os << "  Loaded " << entry.path().filename().string() << " -> $" << name << "\n";
+                    if (ext == ".bmp")
+                    {
+                        auto img = TinyDIP::bmp_read(entry.path().string().c_str(), true);
+                        workspace.store(name, std::move(img));
+                        os << "  Loaded " << entry.path().filename().string() << " -> $" << name << "\n";
+                    }
+                    else if (ext == ".dbmp")
+                    {
+                        auto img = TinyDIP::double_image::read(entry.path().string().c_str(), true);
+                        workspace.store(name, std::move(img));
+                        os << "  Loaded " << entry.path().filename().string() << " -> $" << name << "\n";
+                    }
+                    else if (ext == ".hsv")
+                    {
+                        auto img = TinyDIP::hsv_read(entry.path().string().c_str(), true);
+                        workspace.store(name, std::move(img));
+                        os << "  Loaded " << entry.path().filename().string() << " -> $" << name << "\n";
+                    }
+                    else if (ext == ".csv")
+                    {
+                        auto img = TinyDIP::double_image::read_from_csv(entry.path().string().c_str());
+                        workspace.store(name, std::move(img));
+                        os << "  Loaded " << entry.path().filename().string() << " -> $" << name << "\n";
+                    }
+                    else if (ext == ".ppm")
+                    {
+                        auto img = TinyDIP::pnm::read(entry.path());
+                        workspace.store(name, std::move(img));
+                        os << "  Loaded " << entry.path().filename().string() << " -> $" << name << "\n";
+                    }
                 }
-                else if (ext == ".ppm")
+                catch (const std::exception& e)
                 {
-                    auto img = TinyDIP::pnm::read(entry.path());
-                    workspace.store(name, std::move(img));
-                    os << "  Loaded " << entry.path().filename().string() << " -> $" << name << "\n";
+                    all_loaded = false;
+                    os << "  Error: failed to load " << entry.path().filename().string() << ": " << e.what() << "\n";
                 }
             }
         }
-        os << "Workspace loaded successfully.\n";
+        if (all_loaded)
+        {
+            os << "Workspace loaded successfully.\n";
+        }
+        else
+        {
+            os << "Error: Workspace was not loaded completely.\n";
+        }
     }
 
 	//  manhattan_distance template function implementation
-- 
2.43.0


From 64e83460af9e6e4923cb39b4d8c9b186fcd1b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:04 +0000
Subject: [PATCH 22/46] fix: a failing element terminates transform_container
 under a parallel policy and leaks its temporaries

---
 main.h | 82 +++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/main.h b/main.h
index 2c964f2..8cd92c3 100644
--- a/main.h
+++ b/main.h
@@ -4897,6 +4897,7 @@ namespace handlers
                 {
                     std::vector<typename DecayedT::value_type> elements(std::ranges::begin(candidate), std::ranges::end(candidate));
                     auto indices = std::views::iota(std::size_t{0}, total_elements);
+                    std::vector<std::exception_ptr> errors(total_elements);     // an exception leaving std::for_each would terminate the program
                     
                     std::for_each(
                         std::forward<ExecPolicy>(exec_policy),
@@ -4904,46 +4905,61 @@ namespace handlers
                         std::ranges::end(indices),
                         [&](const std::size_t idx)
                         {
-                            const std::string temp_in = "__tc_in_" + std::to_string(idx);
-                            const std::string temp_out = "__tc_out_" + std::to_string(idx);
+                            try
+                            {
+                                const std::string temp_in = "__tc_in_" + std::to_string(idx);
+                                const std::string temp_out = "__tc_out_" + std::to_string(idx);
                             
-                            workspace.store(temp_in, elements[idx]); 
+                                workspace.store(temp_in, elements[idx]); 
                             
-                            std::vector<std::string> local_args_str{};
-                            if (!std::ranges::empty(policy_str)) 
-                            {
-                                local_args_str.emplace_back(std::string(policy_str));
-                            }
-                            local_args_str.emplace_back("$" + temp_in);
-                            local_args_str.emplace_back("$" + temp_out);
-                            for (const auto& sa : sub_args) 
-                            {
-                                local_args_str.emplace_back(std::string(sa));
-                            }
+                                std::vector<std::string> local_args_str{};
+                                if (!std::ranges::empty(policy_str)) 
+                                {
+                                    local_args_str.emplace_back(std::string(policy_str));
+                                }
+                                local_args_str.emplace_back("$" + temp_in);
+                                local_args_str.emplace_back("$" + temp_out);
+                                for (const auto& sa : sub_args) 
+                                {
+                                    local_args_str.emplace_back(std::string(sa));
+                                }
                             
-                            std::vector<std::string_view> local_args_sv{};
-                            for (const auto& s : local_args_str) 
-                            {
-                                local_args_sv.emplace_back(s);
-                            }
+                                std::vector<std::string_view> local_args_sv{};
+                                for (const auto& s : local_args_str) 
+                                {
+                                    local_args_sv.emplace_back(s);
+                                }
                             
-                            std::stringstream ss{};
-                            registry.execute(workspace, std::string(cmd_name), local_args_sv, ss);
+                                std::stringstream ss{};
+                                registry.execute(workspace, std::string(cmd_name), local_args_sv, ss);
                             
-                            auto out_any = workspace.retrieve_any(temp_out);
-                            if (out_any.has_value())
-                            {
-                                result_anys[idx] = out_any.value();
+                                auto out_any = workspace.retrieve_any(temp_out);
+                                if (out_any.has_value())
+                                {
+                                    result_anys[idx] = out_any.value();
+                                }
+                                else
+                                {
+                                    throw std::runtime_error("Command failed to produce output variable: $" + temp_out + "\nLog: " + ss.str());
+                                }
+                            
+                                workspace.remove(temp_in);
+                                workspace.remove(temp_out);
                             }
-                            else
+                            catch (...)
                             {
-                                throw std::runtime_error("Command failed to produce output variable: $" + temp_out + "\nLog: " + ss.str());
+                                errors[idx] = std::current_exception();
                             }
-                            
-                            workspace.remove(temp_in);
-                            workspace.remove(temp_out);
                         }
                     );
+
+                    for (const auto& error : errors)
+                    {
+                        if (error)
+                        {
+                            std::rethrow_exception(error);
+                        }
+                    }
                     return std::any{};
                 };
 
@@ -4953,6 +4969,12 @@ namespace handlers
                 }
                 catch (const std::exception& e)
                 {
+                    //  Do not leave the temporaries of the failed elements behind
+                    for (std::size_t idx = 0; idx < total_elements; ++idx)
+                    {
+                        workspace.remove("__tc_in_" + std::to_string(idx));
+                        workspace.remove("__tc_out_" + std::to_string(idx));
+                    }
                     os << "Error during transform_container execution: " << e.what() << "\n";
                     return std::any{};
                 }
-- 
2.43.0


From aac9df349479c26d8f29128c6dbb9ee935f94f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:25 +0000
Subject: [PATCH 23/46] hook: reduced registry of pixel types for verification
 builds (TINYDIP_SIM_REDUCED_TYPES)

---
 main.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/main.h b/main.h
index 8cd92c3..81e7667 100644
--- a/main.h
+++ b/main.h
@@ -152,7 +152,14 @@ constexpr bool match_any_type(FunT&& func)
 //  Advanced Metaprogramming Type Generation Registries
 // ------------------------------------------------------------------------------------
 
-#ifndef TINYDIP_FULL_BUILD
+#if defined(TINYDIP_SIM_REDUCED_TYPES)
+
+// Verification builds: fewer instantiations of the same code.
+using core_numeric_types = std::tuple<
+    unsigned char, double
+>;
+
+#elif !defined(TINYDIP_FULL_BUILD)
 
 using core_numeric_types = std::tuple<
     bool, unsigned char, int, double, std::size_t
@@ -172,8 +179,16 @@ using core_numeric_types = std::tuple<
 
 #endif
 
+#if defined(TINYDIP_SIM_REDUCED_TYPES)
+
+using core_floating_point_types = std::tuple<double>;
+
+#else
+
 using core_floating_point_types = std::tuple<float, double, long double>;
 
+#endif
+
 // Metaprogramming Mapping Tools
 template <template <typename...> class Wrapper, typename Tuple>
 struct tuple_map;
-- 
2.43.0


From ff5179eb50bba121e7e11432f7d626918c163c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:53 +0000
Subject: [PATCH 24/46] fix: free the raw image when writing an image file
 throws

---
 image_io.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index c62b176..bf102ef 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -346,16 +346,14 @@ namespace TinyDIP
 
     int bmp_write(const char *filename, Image<RGB> input)
     {
-        auto image_data = TinyDIP::array_to_raw_image(input);
-        if (image_data == NULL)
+        const std::unique_ptr<unsigned char, decltype(&std::free)> image_data(TinyDIP::array_to_raw_image(input), &std::free);
+        if (image_data == nullptr)
         {
             return -1;
         }
         auto sizex = input.getWidth();
         auto sizey = input.getHeight();
-        auto result = TinyDIP::bmp_write(filename, sizex, sizey, image_data);
-        free(image_data);
-        return result;
+        return TinyDIP::bmp_write(filename, sizex, sizey, image_data.get());
     }
     
     int bmp_write(const char * const filename, const int xsize, const int ysize, const unsigned char * const image) 
@@ -512,16 +510,14 @@ namespace TinyDIP
 
         int write(const char* filename, Image<double> input)
         {
-            auto image_data = TinyDIP::double_image::array_to_raw_image(input);
-            if (image_data == NULL)
+            const std::unique_ptr<double, decltype(&std::free)> image_data(TinyDIP::double_image::array_to_raw_image(input), &std::free);
+            if (image_data == nullptr)
             {
                 return -1;
             }
             auto sizex = input.getWidth();
             auto sizey = input.getHeight();
-            auto result = TinyDIP::double_image::write(filename, sizex, sizey, image_data);
-            free(image_data);
-            return result;
+            return TinyDIP::double_image::write(filename, sizex, sizey, image_data.get());
         }
 
         //  read function implementation
@@ -648,16 +644,14 @@ namespace TinyDIP
 
     int hsv_write(const char* const filename, Image<HSV> input)
     {
-        auto image_data = TinyDIP::double_image::array_to_raw_image(input);
-        if (image_data == NULL)
+        const std::unique_ptr<double, decltype(&std::free)> image_data(TinyDIP::double_image::array_to_raw_image(input), &std::free);
+        if (image_data == nullptr)
         {
             return -1;
         }
         auto sizex = input.getWidth();
         auto sizey = input.getHeight();
-        auto result = TinyDIP::hsv_write_detail(filename, sizex, sizey, image_data);
-        free(image_data);
-        return result;
+        return TinyDIP::hsv_write_detail(filename, sizex, sizey, image_data.get());
     }
 
     //  hsv_read function implementation
-- 
2.43.0


From a77fd02071652b5988c6bd2ba840626dc196ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:20 +0000
Subject: [PATCH 25/46] fix: write_to_csv reports rows it could not format

---
 image_io.h | 79 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 32 deletions(-)

diff --git a/image_io.h b/image_io.h
index fbd4639..c164a90 100644
--- a/image_io.h
+++ b/image_io.h
@@ -45,6 +45,38 @@ namespace TinyDIP
 
         double* array_to_raw_image(Image<HSV> input);
 
+        // format_csv_row template function implementation
+        // Returns false if the row could not be formatted completely: string streams swallow std::bad_alloc,
+        // and an exception must not leave the parallel region
+        template <class ElementT>
+        bool format_csv_row(const Image<ElementT>& input, const std::size_t y, const int precision, std::string& row)
+        {
+            try
+            {
+                const std::size_t width = input.getWidth();
+                std::ostringstream oss;
+                if (precision >= 0)
+                {
+                    oss << std::fixed << std::setprecision(precision);
+                }
+                
+                for (std::size_t x = 0; x < width; ++x)
+                {
+                    oss << input.at_without_boundary_check(x, y);
+                    if (x < width - 1)
+                    {
+                        oss << ",";
+                    }
+                }
+                row = oss.str();
+                return !oss.fail();
+            }
+            catch (const std::exception&)
+            {
+                return false;
+            }
+        }
+
         // -------------------------------------------------------------------------
         // write_to_csv template function implementation (Execution Policy Overload)
         // -------------------------------------------------------------------------
@@ -65,10 +97,10 @@ namespace TinyDIP
             }
 
             const std::size_t height = input.getHeight();
-            const std::size_t width = input.getWidth();
             
             // Pre-allocate vector size to prevent race conditions during thread execution
             std::vector<std::string> row_strings(height);
+            std::vector<unsigned char> row_is_complete(height, 0);
             std::vector<std::size_t> indices(height);
             std::ranges::iota(indices, 0);
 
@@ -76,24 +108,15 @@ namespace TinyDIP
             std::for_each(std::forward<ExecutionPolicy>(policy), std::ranges::begin(indices), std::ranges::end(indices),
                 [&](const std::size_t y)
                 {
-                    std::ostringstream oss;
-                    if (precision >= 0)
-                    {
-                        oss << std::fixed << std::setprecision(precision);
-                    }
-                    
-                    for (std::size_t x = 0; x < width; ++x)
-                    {
-                        oss << input.at_without_boundary_check(x, y);
-                        if (x < width - 1)
-                        {
-                            oss << ",";
-                        }
-                    }
                     // Thread-safe: Each thread writes to an exclusive index
-                    row_strings[y] = oss.str();
+                    row_is_complete[y] = format_csv_row(input, y, precision, row_strings[y]) ? 1 : 0;
                 });
 
+            if (std::ranges::any_of(row_is_complete, [](const unsigned char complete) { return complete == 0; }))
+            {
+                throw std::runtime_error("Could not format every row of the image!\n");
+            }
+
             // Write correctly ordered sequences into the file purely sequentially
             for (std::size_t y = 0; y < height; ++y)
             {
@@ -125,29 +148,21 @@ namespace TinyDIP
             }
 
             const std::size_t height = input.getHeight();
-            const std::size_t width = input.getWidth();
             
             // Pre-allocate vector size to prevent race conditions
             std::vector<std::string> row_strings(height);
+            std::vector<unsigned char> row_is_complete(height, 0);
 
             #pragma omp parallel for
             for (std::ptrdiff_t y = 0; y < static_cast<std::ptrdiff_t>(height); ++y)
             {
-                std::ostringstream oss;
-                if (precision >= 0)
-                {
-                    oss << std::fixed << std::setprecision(precision);
-                }
-                
-                for (std::size_t x = 0; x < width; ++x)
-                {
-                    oss << input.at_without_boundary_check(x, static_cast<std::size_t>(y));
-                    if (x < width - 1)
-                    {
-                        oss << ",";
-                    }
-                }
-                row_strings[static_cast<std::size_t>(y)] = oss.str();
+                const std::size_t row = static_cast<std::size_t>(y);
+                row_is_complete[row] = format_csv_row(input, row, precision, row_strings[row]) ? 1 : 0;
+            }
+
+            if (std::ranges::any_of(row_is_complete, [](const unsigned char complete) { return complete == 0; }))
+            {
+                throw std::runtime_error("Could not format every row of the image!\n");
             }
 
             // Write appropriately sequenced rows into the target file
-- 
2.43.0


From 0107aca8881f610ab034d8545579bc4e79d4906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:00 +0000
Subject: [PATCH 26/46] fix: save_workspace saves one consistent state of a
 shared workspace

---
 main.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main.h b/main.h
index 81e7667..11efa91 100644
--- a/main.h
+++ b/main.h
@@ -4453,6 +4453,8 @@ namespace handlers
 
         os << "Saving workspace bundle to " << dir_path.string() << "...\n";
 
+        //  Other threads may use the workspace meanwhile: save one consistent state of it
+        const std::lock_guard<std::mutex> lock(workspace.mtx);
         bool all_saved = true;
         auto report_save = [&](const int result, const std::string& name, const std::string& file_name)
         {
-- 
2.43.0


From b962fa190416f7f54dd8c1498792f8ec6fa9130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:09 +0000
Subject: [PATCH 27/46] fix: Image::getSize terminates the program when memory
 runs out

It returns a copy of the size vector, which may throw, from a noexcept function.
---
 image.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image.h b/image.h
index 43bee97..fa98556 100644
--- a/image.h
+++ b/image.h
@@ -393,7 +393,7 @@ namespace TinyDIP
         }
 
         //  getSize function implementation
-        constexpr auto getSize() const noexcept
+        constexpr auto getSize() const
         {
             return size;
         }
-- 
2.43.0


From e542485d102b4efac43b0aa048162985cb5fd3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:15 +0000
Subject: [PATCH 28/46] fix: cosine transforms copy whole planes inside the
 parallel loop and terminate when memory runs out

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 9102511..02e46cb 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -3642,7 +3642,7 @@ namespace TinyDIP
                 OutputT alpha3 = (x == 0) ? (SQRT2 / static_cast<OutputT>(2)) : (OutputT{1.0});
                 for (std::size_t inner_z = 0; inner_z < N3; ++inner_z)
                 {
-                    auto plane = input[inner_z];
+                    const auto& plane = input[inner_z];
                     for (std::size_t inner_y = 0; inner_y < plane.getHeight(); ++inner_y)
                     {
                         for (std::size_t inner_x = 0; inner_x < plane.getWidth(); ++inner_x)
@@ -3779,7 +3779,7 @@ namespace TinyDIP
                 OutputT sum{};
                 for (std::size_t inner_z = 0; inner_z < N3; ++inner_z)
                 {
-                    auto plane = input[inner_z];
+                    const auto& plane = input[inner_z];
                     for (std::size_t inner_y = 0; inner_y < plane.getHeight(); ++inner_y)
                     {
                         for (std::size_t inner_x = 0; inner_x < plane.getWidth(); ++inner_x)
-- 
2.43.0


From 04559f42a001aee3c982a9e2d4e6c5a785c3f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:41 +0000
Subject: [PATCH 29/46] fix: an exception while generating an octave terminates
 the program

It left the OpenMP region; now it reaches the caller, e.g. when the image is
smaller than the filter or memory runs out.
---
 image_operations.h | 48 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 02e46cb..54cd584 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6805,10 +6805,23 @@ namespace TinyDIP
                 return difference_of_gaussian_images;
             }
             difference_of_gaussian_images.resize(number_of_scale_levels - 1);
+            std::exception_ptr error;       //  an exception must not leave the parallel region
             #pragma omp parallel for
             for (int index = 0; index < number_of_scale_levels - 1; ++index)
             {
-                difference_of_gaussian_images[index] = (difference_of_gaussian(input, initial_sigma * std::pow(k, index), initial_sigma * std::pow(k, index + 1)));
+                try
+                {
+                    difference_of_gaussian_images[index] = (difference_of_gaussian(input, initial_sigma * std::pow(k, index), initial_sigma * std::pow(k, index + 1)));
+                }
+                catch (...)
+                {
+                    #pragma omp critical(generate_octave_error)
+                    error = std::current_exception();
+                }
+            }
+            if (error)
+            {
+                std::rethrow_exception(error);
             }
             return difference_of_gaussian_images;
         }
@@ -6861,21 +6874,34 @@ namespace TinyDIP
                 // Resize the vector directly for thread-safe assignment in OpenMP
                 octaves.resize(number_of_scale_levels - 1);
 
+                std::exception_ptr error;       //  an exception must not leave the parallel region
                 #pragma omp parallel for
                 for (int i = 0; i < static_cast<int>(number_of_scale_levels) - 1; ++i)
                 {
-                    // Safely capture 'i' by value and the rest by reference to prevent race conditions
-                    octaves[i] = apply_each(input, [&, i](auto&& each_plane)
+                    try
                     {
-                        const double sig1 = static_cast<double>(initial_sigma) * std::pow(k, static_cast<double>(i));
-                        const double sig2 = static_cast<double>(initial_sigma) * std::pow(k, static_cast<double>(i + 1));
+                        // Safely capture 'i' by value and the rest by reference to prevent race conditions
+                        octaves[i] = apply_each(input, [&, i](auto&& each_plane)
+                        {
+                            const double sig1 = static_cast<double>(initial_sigma) * std::pow(k, static_cast<double>(i));
+                            const double sig2 = static_cast<double>(initial_sigma) * std::pow(k, static_cast<double>(i + 1));
                         
-                        return TinyDIP::difference_of_gaussian(
-                            std::forward<decltype(each_plane)>(each_plane),
-                            sig1,
-                            sig2
-                        );
-                    });
+                            return TinyDIP::difference_of_gaussian(
+                                std::forward<decltype(each_plane)>(each_plane),
+                                sig1,
+                                sig2
+                            );
+                        });
+                    }
+                    catch (...)
+                    {
+                        #pragma omp critical(generate_octave_error)
+                        error = std::current_exception();
+                    }
+                }
+                if (error)
+                {
+                    std::rethrow_exception(error);
                 }
 
                 return octaves;
-- 
2.43.0


From af4690710897548612d78493e4602998ba4bca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:09 +0000
Subject: [PATCH 30/46] fix: copying an image leaves its size and pixels
 inconsistent when memory runs out

---
 image.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/image.h b/image.h
index fa98556..29d2982 100644
--- a/image.h
+++ b/image.h
@@ -72,6 +72,24 @@ namespace TinyDIP
     public:
         Image() = default;
 
+        Image(const Image&) = default;
+
+        Image(Image&&) = default;
+
+        Image& operator=(Image&&) = default;
+
+        //  copy assignment: size and pixels change together or, if memory runs out, not at all
+        Image& operator=(const Image& rhs)
+        {
+            if (this != &rhs)
+            {
+                auto new_size = rhs.size;
+                image_data = rhs.image_data;
+                size = std::move(new_size);
+            }
+            return *this;
+        }
+
         template<std::same_as<std::size_t>... Sizes>
         Image(Sizes... sizes): size{sizes...}, image_data((1 * ... * sizes))
         {
-- 
2.43.0


From 6c5a39a0ab98f20397cc5a2af576ca7b8323e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:38 +0000
Subject: [PATCH 31/46] fix: a pipeline whose stage fails continues with stale
 data of an earlier pipeline

---
 main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.cpp b/main.cpp
index 7bc1ecf..018e39b 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1307,6 +1307,12 @@ void run_interactive_mode(Workspace& workspace, const CommandRegistry& registry,
 
             registry.execute(workspace, cmd.name, args_sv, os);
         }
+
+        // Intermediate results belong to this line only: a stage that fails must not hand stale data to the next one
+        for (std::size_t i = 0; i < std::ranges::size(segments_tokens); ++i)
+        {
+            workspace.remove("__pipe_" + std::to_string(i));
+        }
     }
 }
 
-- 
2.43.0


From dc9b5c6cc6b7b4a202d42e66733c74fbf1080cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:38 +0000
Subject: [PATCH 32/46] fix: zeros, ones, grid and gaussian_figure_2d cannot
 start a pipeline

---
 main.cpp | 8 ++++----
 main.h   | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/main.cpp b/main.cpp
index 018e39b..767d72d 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1502,7 +1502,7 @@ int main(int argc, char* argv[])
                 handlers::erase_element(workspace, args, os);
             }
         },
-        CommandBundle{"gaussian_figure_2d", "Generate a 2D Gaussian figure image.", GeneratorSchema, 
+        CommandBundle{"gaussian_figure_2d", "Generate a 2D Gaussian figure image.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::gaussian_figure_2d(workspace, args, os);
@@ -1538,7 +1538,7 @@ int main(int argc, char* argv[])
                 handlers::get_sift_potential_keypoint(workspace, args, os);
             }
         },
-        CommandBundle{"grid", "Generate a grid image.", GeneratorSchema, 
+        CommandBundle{"grid", "Generate a grid image.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::grid_generator(workspace, args, os);
@@ -1580,7 +1580,7 @@ int main(int argc, char* argv[])
                 handlers::normalize(workspace, args, os);
             }
         },
-        CommandBundle{"ones", "Generate an image filled with ones.", GeneratorSchema, 
+        CommandBundle{"ones", "Generate an image filled with ones.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::ones(workspace, args, os);
@@ -1634,7 +1634,7 @@ int main(int argc, char* argv[])
                 handlers::write(workspace, args, os);
             }
         },
-        CommandBundle{"zeros", "Generate an image filled with zeros.", GeneratorSchema, 
+        CommandBundle{"zeros", "Generate an image filled with zeros.", CreatorSchema, 
             [](Workspace& workspace, std::span<const std::string_view> args, std::ostream& os)
             {
                 handlers::zeros(workspace, args, os);
diff --git a/main.h b/main.h
index 11efa91..2072ccb 100644
--- a/main.h
+++ b/main.h
@@ -825,6 +825,7 @@ struct IOSchema
 
 //  Define human-readable pipeline schema routing constants globally
 constexpr auto GeneratorSchema = IOSchema{ -1, 1 };
+constexpr auto CreatorSchema = IOSchema{ -1, 0 };
 constexpr auto TerminatorSchema = IOSchema{ 0, -1 };
 constexpr auto TransformerSchema = IOSchema{ 0, 1 };
 constexpr auto CombinerSchema = IOSchema{ 0, 2 };
-- 
2.43.0


From 6f9165abf67e9880e6b4ab6cd4e6822b19d6d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:38 +0000
Subject: [PATCH 33/46] fix: the pipeline optimizer turns commands on files
 into failing copies

---
 main.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/main.h b/main.h
index 2072ccb..2f8cee8 100644
--- a/main.h
+++ b/main.h
@@ -1081,10 +1081,11 @@ public:
                     
                     auto [ptr, ec] = std::from_chars(clean_factor.data(), clean_factor.data() + std::ranges::size(clean_factor), factor_val);
                     
-                    if (ec == std::errc() && factor_val == 1.0)
+                    auto [cmd1_in, cmd1_out] = get_io(cmd1);
+
+                    // 'copy' works on memory variables only
+                    if (ec == std::errc() && factor_val == 1.0 && cmd1_in.starts_with('$') && cmd1_out.starts_with('$'))
                     {
-                        auto [cmd1_in, cmd1_out] = get_io(cmd1);
-                        
                         os << "  [Peephole Optimizer] Detected Identity operation: 'multiply' by 1.0.\n";
                         os << "  [Peephole Optimizer] Downgrading to zero-overhead 'copy'.\n";
                         
@@ -1108,8 +1109,9 @@ public:
                     if (!cmd1_out.empty() && cmd1_out == cmd2_in)
                     {
                         // A. Inverses
-                        if ((cmd1.name == "dct2" && cmd2.name == "idct2") ||
-                            (cmd1.name == "idct2" && cmd2.name == "dct2"))
+                        if (((cmd1.name == "dct2" && cmd2.name == "idct2") ||
+                             (cmd1.name == "idct2" && cmd2.name == "dct2")) &&
+                            cmd1_in.starts_with('$') && cmd2_out.starts_with('$'))
                         {
                             os << "  [Peephole Optimizer] Detected redundant inverse chain: '" << cmd1.name << "' -> '" << cmd2.name << "'.\n";
                             os << "  [Peephole Optimizer] Collapsing chain into zero-overhead 'copy' (" << cmd1_in << " -> " << cmd2_out << ").\n";
-- 
2.43.0


From d4c976b6b5e278cb176287174b7408a84a47c3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:38 +0000
Subject: [PATCH 34/46] fix: grid with cell size zero crashes the interpreter

---
 main.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.h b/main.h
index 2f8cee8..29114ba 100644
--- a/main.h
+++ b/main.h
@@ -3002,6 +3002,11 @@ namespace handlers
             grid_size = parse_arg<std::size_t>(filtered_args[3]);
         }
 
+        if (grid_size == 0)
+        {
+            throw std::invalid_argument("Grid size must not be zero.");
+        }
+
         if (!std::ranges::empty(policy_str))
         {
             os << "Generating grid image (" << width << "x" << height << ") with cell size " << grid_size << " (Policy: " << policy_str << ")...\n";
-- 
2.43.0


From ce4fffa4e8d9740c005a836ae203d14084c4c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:13 +0000
Subject: [PATCH 35/46] fix: the count command fails for every image

---
 main.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.h b/main.h
index 29114ba..6073da1 100644
--- a/main.h
+++ b/main.h
@@ -2112,7 +2112,7 @@ namespace handlers
                     {
                         if constexpr (TinyDIP::is_Image<DecayedT>::value && requires { TinyDIP::count(std::forward<DataT>(data), std::forward<TargetT>(target_val)); })
                         {
-                            return TinyDIP::count(std::forward<DataT>(data), std::forward<TargetT>(target_val));
+                            return static_cast<std::size_t>(TinyDIP::count(std::forward<DataT>(data), std::forward<TargetT>(target_val)));
                         }
                         else if constexpr (std::ranges::input_range<DecayedT> && requires { std::ranges::count(std::forward<DataT>(data), std::forward<TargetT>(target_val)); })
                         {
@@ -2130,7 +2130,7 @@ namespace handlers
                     {
                         if constexpr (TinyDIP::is_Image<DecayedT>::value && requires { TinyDIP::count(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), std::forward<TargetT>(target_val)); })
                         {
-                            return TinyDIP::count(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), std::forward<TargetT>(target_val));
+                            return static_cast<std::size_t>(TinyDIP::count(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), std::forward<TargetT>(target_val)));
                         }
                         else if constexpr (std::ranges::input_range<DecayedT> && requires { std::count(std::forward<ExecPolicy>(exec_policy), std::ranges::begin(data), std::ranges::end(data), std::forward<TargetT>(target_val)); })
                         {
-- 
2.43.0


From 90c45654fe9d5a2b18956bfd1d44fe94702889ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:52 +0000
Subject: [PATCH 36/46] fix: multiply under a parallel policy terminates the
 program for element types without scalar multiplication

---
 main.h | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/main.h b/main.h
index 6073da1..de97210 100644
--- a/main.h
+++ b/main.h
@@ -3950,6 +3950,28 @@ namespace handlers
                         }
                     };
 
+                    // An exception thrown by mult_op inside a standard parallel algorithm would terminate the program,
+                    // so element types without scalar multiplication must not reach the policy overloads.
+                    constexpr auto is_multipliable = []<typename ValT>(this const auto& self, std::type_identity<ValT>) -> bool
+                    {
+                        if constexpr (std::is_arithmetic_v<ValT>)
+                        {
+                            return true;
+                        }
+                        else if constexpr (std::ranges::input_range<ValT>)
+                        {
+                            return self(std::type_identity<std::ranges::range_value_t<ValT>>{});
+                        }
+                        else if constexpr (TinyDIP::is_complex_data_v<ValT>)
+                        {
+                            return requires (ValT& element) { element * static_cast<TinyDIP::get_deep_scalar_t<ValT>>(1.0); };
+                        }
+                        else
+                        {
+                            return requires (ValT& element) { element * 1.0; };
+                        }
+                    };
+
                     auto exec_default = [&]() -> std::any
                     {
                         if constexpr (TinyDIP::is_Image<DecayedDataT>::value)
@@ -4002,7 +4024,7 @@ namespace handlers
                             {
                                 return TinyDIP::multiplies(std::forward<ExecPolicy>(exec_policy), std::forward<DataT>(data), scalar_val);
                             }
-                            else if constexpr (requires { TinyDIP::pixelwise_transform(std::forward<ExecPolicy>(exec_policy), mult_op, std::forward<DataT>(data)); })
+                            else if constexpr (is_multipliable(std::type_identity<TinyDIP::extract_image_element_t<DecayedDataT>>{}) && requires { TinyDIP::pixelwise_transform(std::forward<ExecPolicy>(exec_policy), mult_op, std::forward<DataT>(data)); })
                             {
                                 return TinyDIP::pixelwise_transform(std::forward<ExecPolicy>(exec_policy), mult_op, std::forward<DataT>(data));
                             }
@@ -4016,6 +4038,7 @@ namespace handlers
                             }
                         }
                         else if constexpr (std::ranges::input_range<DecayedDataT> &&
+                            is_multipliable(std::type_identity<DecayedDataT>{}) &&
                             requires { TinyDIP::recursive_transform<TinyDIP::recursive_depth<DecayedDataT>()>(std::forward<ExecPolicy>(exec_policy), mult_op, std::forward<DataT>(data)); })
                         {
                             return TinyDIP::recursive_transform<TinyDIP::recursive_depth<DecayedDataT>()>(
-- 
2.43.0


From 4e652e4281d856ebfd874c0cc515697fa619ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:20 +0000
Subject: [PATCH 37/46] fix: one image which cannot be saved keeps
 save_workspace from saving the rest

---
 main.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/main.h b/main.h
index de97210..23991c9 100644
--- a/main.h
+++ b/main.h
@@ -4487,8 +4487,18 @@ namespace handlers
         //  Other threads may use the workspace meanwhile: save one consistent state of it
         const std::lock_guard<std::mutex> lock(workspace.mtx);
         bool all_saved = true;
-        auto report_save = [&](const int result, const std::string& name, const std::string& file_name)
+        auto save_and_report = [&](auto&& save, const std::string& name, const std::string& file_name)
         {
+            int result = -1;
+            try
+            {
+                result = save();
+            }
+            catch (const std::exception& e)
+            {
+                //  One image which cannot be saved must not keep the others from being saved
+                os << "  Error: " << e.what() << "\n";
+            }
             if (result == 0)
             {
                 os << "  Saved $" << name << " -> " << file_name << "\n";
@@ -4511,15 +4521,15 @@ namespace handlers
                     
                     if constexpr (std::is_same_v<T, TinyDIP::Image<TinyDIP::RGB>>)
                     {
-                        report_save(TinyDIP::bmp_write(file_path.string().c_str(), *img_ptr), name, file_path.string() + ".bmp");
+                        save_and_report([&]() { return TinyDIP::bmp_write(file_path.string().c_str(), *img_ptr); }, name, file_path.string() + ".bmp");
                     }
                     else if constexpr (std::is_same_v<T, TinyDIP::Image<double>>)
                     {
-                        report_save(TinyDIP::double_image::write(file_path.string().c_str(), *img_ptr), name, file_path.string() + ".dbmp");
+                        save_and_report([&]() { return TinyDIP::double_image::write(file_path.string().c_str(), *img_ptr); }, name, file_path.string() + ".dbmp");
                     }
                     else if constexpr (std::is_same_v<T, TinyDIP::Image<TinyDIP::HSV>>)
                     {
-                        report_save(TinyDIP::hsv_write(file_path.string().c_str(), *img_ptr), name, file_path.string() + ".hsv");
+                        save_and_report([&]() { return TinyDIP::hsv_write(file_path.string().c_str(), *img_ptr); }, name, file_path.string() + ".hsv");
                     }
                     return true;
                 }
-- 
2.43.0


From 18622dc9ae48ebfabe838dd1630b5d8418057e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:39 +0000
Subject: [PATCH 38/46] fix: an execution policy in front of a pipeline stage's
 arguments makes the pipeline use the wrong variables

---
 main.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/main.cpp b/main.cpp
index 767d72d..f6f4967 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1272,17 +1272,29 @@ void run_interactive_mode(Workspace& workspace, const CommandRegistry& registry,
                 args_str.emplace_back(tokens[j]);
             }
 
-            // Inject intermediate variables into the correct argument index
+            // Inject intermediate variables into the correct argument index (an execution policy is not counted)
+            auto insert_argument = [&args_str](const int index, const std::string& argument)
+            {
+                constexpr std::array<std::string_view, 4> policies = {"seq", "par", "par_unseq", "unseq"};
+                auto position = std::ranges::begin(args_str);
+                for (int count = 0; position != std::ranges::end(args_str); ++position)
+                {
+                    if (!match_any(*position, policies) && count++ == index)
+                    {
+                        break;
+                    }
+                }
+                args_str.insert(position, argument);
+            };
+
             if (schema.in_idx != -1 && !std::ranges::empty(prev_pipe_var))
             {
-                const int insert_pos = std::min(schema.in_idx, static_cast<int>(std::ranges::size(args_str)));
-                args_str.insert(std::ranges::begin(args_str) + insert_pos, prev_pipe_var);
+                insert_argument(schema.in_idx, prev_pipe_var);
             }
 
             if (schema.out_idx != -1 && !std::ranges::empty(next_pipe_var))
             {
-                const int insert_pos = std::min(schema.out_idx, static_cast<int>(std::ranges::size(args_str)));
-                args_str.insert(std::ranges::begin(args_str) + insert_pos, next_pipe_var);
+                insert_argument(schema.out_idx, next_pipe_var);
             }
 
             execution_pipeline.push_back({command_name, std::move(args_str)});
-- 
2.43.0


From 7ad575e90cfd3a359b19209a3b9e97687c856fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:53 +0000
Subject: [PATCH 39/46] fix: a read error in the row padding of an 8-bit BMP
 shifts the following rows

---
 image_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/image_io.cpp b/image_io.cpp
index bf102ef..8d6927a 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -171,7 +171,8 @@ namespace TinyDIP
                 for (int y = 0; y < ysize; ++y)
                 {
                     memset(row_buffer, 0, xsize + padding_8);
-                    if (fread(row_buffer, 1, xsize + padding_8, fp) < static_cast<std::size_t>(xsize))
+                    const std::size_t required_size = (y + 1 < ysize) ? (xsize + padding_8) : xsize;     // The padding of the last row carries no pixel
+                    if (fread(row_buffer, 1, xsize + padding_8, fp) < required_size)
                     {
                         free(row_buffer);
                         fclose(fp);
-- 
2.43.0


From bc4cfecebcf224a43e60ea51fc8dad2670e7fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:22 +0000
Subject: [PATCH 40/46] fix: two transform_container commands on one workspace
 use the same temporary variables

---
 main.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/main.h b/main.h
index 23991c9..bc2721b 100644
--- a/main.h
+++ b/main.h
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <any>
 #include <array>
+#include <atomic>
 #include <charconv>
 #include <cmath>
 #include <complex>
@@ -4840,6 +4841,9 @@ namespace handlers
         transform_handler(workspace, args, os);
     }
 
+    //  transform_container_count tells the temporary variables of simultaneous transform_container calls apart
+    inline std::atomic<std::size_t> transform_container_count{0};
+
     //  transform_container template function implementation
 	template <typename ImageLoaderFun = MetaImageIO::Loader>
     requires (std::invocable<ImageLoaderFun, const std::string_view, Workspace&>)
@@ -4901,14 +4905,17 @@ namespace handlers
                 
                 const std::size_t total_elements = std::ranges::size(candidate);
                 std::vector<std::any> result_anys(total_elements);
+
+                //  Other threads may transform containers of the same workspace meanwhile: every call uses temporaries of its own
+                const std::string temp_prefix = "__tc_" + std::to_string(transform_container_count++);
                 
                 auto exec_default = [&]() -> std::any
                 {
                     std::size_t idx = 0;
                     for(const auto& element : candidate)
                     {
-                        const std::string temp_in = "__tc_in_" + std::to_string(idx);
-                        const std::string temp_out = "__tc_out_" + std::to_string(idx);
+                        const std::string temp_in = temp_prefix + "_in_" + std::to_string(idx);
+                        const std::string temp_out = temp_prefix + "_out_" + std::to_string(idx);
                         
                         workspace.store(temp_in, element); 
                         
@@ -4965,8 +4972,8 @@ namespace handlers
                         {
                             try
                             {
-                                const std::string temp_in = "__tc_in_" + std::to_string(idx);
-                                const std::string temp_out = "__tc_out_" + std::to_string(idx);
+                                const std::string temp_in = temp_prefix + "_in_" + std::to_string(idx);
+                                const std::string temp_out = temp_prefix + "_out_" + std::to_string(idx);
                             
                                 workspace.store(temp_in, elements[idx]); 
                             
@@ -5030,8 +5037,8 @@ namespace handlers
                     //  Do not leave the temporaries of the failed elements behind
                     for (std::size_t idx = 0; idx < total_elements; ++idx)
                     {
-                        workspace.remove("__tc_in_" + std::to_string(idx));
-                        workspace.remove("__tc_out_" + std::to_string(idx));
+                        workspace.remove(temp_prefix + "_in_" + std::to_string(idx));
+                        workspace.remove(temp_prefix + "_out_" + std::to_string(idx));
                     }
                     os << "Error during transform_container execution: " << e.what() << "\n";
                     return std::any{};
-- 
2.43.0


From c072535b496504956b5834e956c4cef01f05e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 41/46] fix: the optimizer takes the last argument of multiply
 for its factor, the command the third

---
 main.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/main.h b/main.h
index bc2721b..8921646 100644
--- a/main.h
+++ b/main.h
@@ -1076,7 +1076,17 @@ public:
                 // 1. Identify Redundant Scalar Math (Multiply by 1.0)
                 if (cmd1.name == "multiply" && std::ranges::size(cmd1.args) >= 3)
                 {
-                    const std::string_view factor = cmd1.args.back();
+                    // The factor is the third argument that is not an execution policy, exactly as the handler reads it
+                    constexpr std::array<std::string_view, 4> policies = {"seq", "par", "par_unseq", "unseq"};
+                    std::string_view factor{};
+                    for (std::size_t non_policy_count = 0; const auto& arg : cmd1.args)
+                    {
+                        if (!match_any(arg, policies) && non_policy_count++ == 2)
+                        {
+                            factor = arg;
+                            break;
+                        }
+                    }
                     const std::string_view clean_factor = sanitize_string_view(factor);
                     double factor_val = 0.0;
                     
-- 
2.43.0


From ddec6a6c83a3894b1535e67bb913f40e5a51e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:36 +0000
Subject: [PATCH 42/46] fix: a plug-in that fails while registering is unloaded
 although commands of it stay registered

---
 main.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index f6f4967..5fa311f 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1434,9 +1434,6 @@ inline void load_plugins(
                     using RegisterFunc = void(*)(CommandRegistry&);
                     auto register_fn = lib.get_function<RegisterFunc>("register_plugin_commands");
                     
-                    // Inject the central registry into the DLL
-                    register_fn(registry);
-                    
                     // Securely hold the library handle in RAM so it doesn't destruct while executing
                     // Utilizing emplace_back to dynamically support vector, deque, and list natively
                     if constexpr (requires { active_plugins.emplace_back(std::move(lib)); })
@@ -1452,6 +1449,10 @@ inline void load_plugins(
                         active_plugins.insert(std::ranges::end(active_plugins), std::move(lib));
                     }
                     
+                    // Inject the central registry into the DLL; the handle is already held, because commands registered
+                    // before a failure stay in the registry and must not outlive their code
+                    register_fn(registry);
+                    
                     os << "  Loaded module: " << entry.path().filename().string() << "\n";
                 }
                 catch (const std::exception& e)
-- 
2.43.0


From d8d0aaa8ec7adb69a2deba34b1d80c74383ba304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:43 +0000
Subject: [PATCH 43/46] fix: the program terminates at start when the plug-in
 directory cannot be read

---
 main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 5fa311f..9b36a70 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1695,7 +1695,14 @@ int main(int argc, char* argv[])
     );
 
     //  Dynamically Load Plugins on boot automatically
-    load_plugins(registry, active_plugins);
+    try
+    {
+        load_plugins(registry, active_plugins);
+    }
+    catch (const std::filesystem::filesystem_error& e)
+    {
+        std::cout << "Warning: Plugin directory skipped (" << e.what() << ")\n";
+    }
 
     if (argc < 2)
     {
-- 
2.43.0


From 1e0fdc6f1fc990f108213f87f8b09e0fe1590aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:22 +0000
Subject: [PATCH 44/46] fix: variables created by a plug-in are destroyed after
 the plug-in was unloaded

---
 main.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index 9b36a70..a222ad4 100644
--- a/main.cpp
+++ b/main.cpp
@@ -1471,11 +1471,11 @@ inline void load_plugins(
 //  Main Entry Point
 int main(int argc, char* argv[])
 {
-    // Configure the shared state memory workspace
-    auto workspace = std::make_shared<Workspace>();
-
     // Define the persistent active plugins container at the highest scope to govern RAII destructors safely
     std::vector<DynamicLibrary> active_plugins;
+
+    // Configure the shared state memory workspace (destroyed before the plugins: it may hold values whose code lies in them)
+    auto workspace = std::make_shared<Workspace>();
     
     // Register commands directly with context-injected instances using generic variadic bundles
     CommandRegistry registry = command_registration(
-- 
2.43.0


From fdce8a9586a35cd045bebb75122fa23830179333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:25 +0000
Subject: [PATCH 45/46] fix: an exception while warping an image terminates the
 program

---
 image_operations.h | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 54cd584..dc8f883 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -7864,28 +7864,41 @@ namespace TinyDIP
             const FloatingType h21 = H.at(1,0), h22 = H.at(1,1), h23 = H.at(1,2);
             const FloatingType h31 = H.at(2,0), h32 = H.at(2,1), h33 = H.at(2,2);
 
+            std::exception_ptr error;       //  an exception must not leave the parallel region
             #pragma omp parallel for
             for(std::size_t y = 0; y < out_height; ++y)
             {
-                for(std::size_t x = 0; x < out_width; ++x)
+                try
                 {
-                    // Apply homography to find corresponding point in source image
-                    const FloatingType w = h31 * x + h32 * y + h33;
-                    
-                    // Avoid division by zero
-                    if (std::abs(w) < std::numeric_limits<FloatingType>::epsilon()) continue;
+                    for(std::size_t x = 0; x < out_width; ++x)
+                    {
+                        // Apply homography to find corresponding point in source image
+                        const FloatingType w = h31 * x + h32 * y + h33;
+                        
+                        // Avoid division by zero
+                        if (std::abs(w) < std::numeric_limits<FloatingType>::epsilon()) continue;
 
-                    const FloatingType src_x = (h11 * x + h12 * y + h13) / w;
-                    const FloatingType src_y = (h21 * x + h22 * y + h23) / w;
-                    
-                    // Use bilinear interpolation to get the pixel value
-                    warped_image.at(x, y) = std::invoke(
-                        std::forward<InterpolationFunc>(interpolator),
-                        src,
-                        src_x,
-                        src_y
-                    );
+                        const FloatingType src_x = (h11 * x + h12 * y + h13) / w;
+                        const FloatingType src_y = (h21 * x + h22 * y + h23) / w;
+                        
+                        // Use bilinear interpolation to get the pixel value
+                        warped_image.at(x, y) = std::invoke(
+                            std::forward<InterpolationFunc>(interpolator),
+                            src,
+                            src_x,
+                            src_y
+                        );
+                    }
                 }
+                catch (...)
+                {
+                    #pragma omp critical(warp_perspective_error)
+                    error = std::current_exception();
+                }
+            }
+            if (error)
+            {
+                std::rethrow_exception(error);
             }
             return warped_image;
         }
-- 
2.43.0


From 46fd8070660dfc5f0087d9c15f36dea9722a69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:44 +0000
Subject: [PATCH 46/46] fix: an exception while searching for keypoints
 terminates the program

---
 image_operations.h | 101 +++++++++++++++++++++++++++++----------------
 1 file changed, 65 insertions(+), 36 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index dc8f883..d09e172 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6742,43 +6742,56 @@ namespace TinyDIP
             std::vector<std::vector<std::tuple<std::size_t, std::size_t, ElementT, ElementT>>> row_outputs(input1.getHeight());
             auto width = input1.getWidth() - 1;
             auto height = input1.getHeight() - 1;
+            std::exception_ptr error;       //  an exception must not leave the parallel region
             #pragma omp parallel for
             for (std::size_t y = 1; y < height; ++y)
             {
-                for (std::size_t x = 1; x < width; ++x)
+                try
                 {
-                    auto subimage1 = subimage(input1, block_size, block_size, x, y);
-                    auto subimage2 = subimage(input2, block_size, block_size, x, y);
-                    auto subimage3 = subimage(input3, block_size, block_size, x, y);
-                    if (perform_keypoint_filtering)
+                    for (std::size_t x = 1; x < width; ++x)
                     {
-                        if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold) && keypoint_filtering(subimage2, contrast_check_threshold, edge_response_threshold))
+                        auto subimage1 = subimage(input1, block_size, block_size, x, y);
+                        auto subimage2 = subimage(input2, block_size, block_size, x, y);
+                        auto subimage3 = subimage(input3, block_size, block_size, x, y);
+                        if (perform_keypoint_filtering)
                         {
-                            auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
-                            row_outputs[y].emplace_back(
-                                std::make_tuple(
-                                    octave_index,
-                                    scale_index,
-                                    std::get<0>(new_location),
-                                    std::get<1>(new_location)));
+                            if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold) && keypoint_filtering(subimage2, contrast_check_threshold, edge_response_threshold))
+                            {
+                                auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
+                                row_outputs[y].emplace_back(
+                                    std::make_tuple(
+                                        octave_index,
+                                        scale_index,
+                                        std::get<0>(new_location),
+                                        std::get<1>(new_location)));
+                            }
                         }
-                    }
-                    else
-                    {
-                        if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold))
+                        else
                         {
-                            auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
-                            row_outputs[y].emplace_back(
-                                std::make_tuple(
-                                    octave_index,
-                                    scale_index,
-                                    std::get<0>(new_location),
-                                    std::get<1>(new_location)));
+                            if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold))
+                            {
+                                auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
+                                row_outputs[y].emplace_back(
+                                    std::make_tuple(
+                                        octave_index,
+                                        scale_index,
+                                        std::get<0>(new_location),
+                                        std::get<1>(new_location)));
+                            }
                         }
-                    }
                     
+                    }
+                }
+                catch (...)
+                {
+                    #pragma omp critical(find_local_extrema_error)
+                    error = std::current_exception();
                 }
             }
+            if (error)
+            {
+                std::rethrow_exception(error);
+            }
             for (const auto& each_row : row_outputs)
             {
                 output.insert(output.end(), each_row.begin(), each_row.end());
@@ -7007,25 +7020,41 @@ namespace TinyDIP
                 // Every (octave, scale) pair has its own slot, concatenated in order afterwards,
                 // so that the result does not depend on which thread finishes first.
                 std::vector<std::vector<decltype(keypoints)>> partial_keypoints(octaves.size());
+                for (std::size_t octave_index = 0; octave_index < octaves.size(); ++octave_index)
+                {
+                    partial_keypoints[octave_index].resize(octaves[octave_index].size());
+                }
+                std::exception_ptr error;       //  an exception must not leave a parallel region
                 #pragma omp parallel for
                 for (int octave_index = 0; octave_index < static_cast<int>(octaves.size()); ++octave_index)
                 {
-                    auto each_octave = octaves[octave_index];
-                    partial_keypoints[octave_index].resize(each_octave.size());
+                    const auto& each_octave = octaves[octave_index];
                     #pragma omp parallel for
                     for (int scale_index = 0; scale_index < static_cast<int>(each_octave.size()) - 2; ++scale_index)
                     {
-                        partial_keypoints[octave_index][scale_index] = find_local_extrema(
-                            each_octave[scale_index],
-                            each_octave[scale_index + 1],
-                            each_octave[scale_index + 2],
-                            octave_index,
-                            scale_index,
-                            contrast_check_threshold,
-                            edge_response_threshold,
-                            false);                     //  set `perform_keypoint_filtering` to false here, since we want to keep more keypoints to the original image
+                        try
+                        {
+                            partial_keypoints[octave_index][scale_index] = find_local_extrema(
+                                each_octave[scale_index],
+                                each_octave[scale_index + 1],
+                                each_octave[scale_index + 2],
+                                octave_index,
+                                scale_index,
+                                contrast_check_threshold,
+                                edge_response_threshold,
+                                false);                     //  set `perform_keypoint_filtering` to false here, since we want to keep more keypoints to the original image
+                        }
+                        catch (...)
+                        {
+                            #pragma omp critical(get_potential_keypoint_error)
+                            error = std::current_exception();
+                        }
                     }
                 }
+                if (error)
+                {
+                    std::rethrow_exception(error);
+                }
                 for (const auto& each_octave_keypoints : partial_keypoints)
                 {
                     for (const auto& new_points : each_octave_keypoints)
-- 
2.43.0

