From e78e24bb2b316cd179ed41cfb4f8bcf804a08d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:10 +0000
Subject: [PATCH 01/38] fix: Image::at(range) checks the number of indices
 before reading the size vector

---
 image.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image.h b/image.h
index 43bee97..5948af4 100644
--- a/image.h
+++ b/image.h
@@ -235,6 +235,10 @@ namespace TinyDIP
         requires(std::integral<std::ranges::range_value_t<Indices>>)
         constexpr decltype(auto) at(const Indices& indexInput) const
         {
+            if (static_cast<std::size_t>(std::ranges::distance(indexInput)) != std::ranges::size(size))
+            {
+                throw std::runtime_error("Dimensionality mismatched!");
+            }
             std::size_t i = 0;
             // Iterate using ranges to universally support both continuous (std::vector) and discrete (std::list) ranges
             for (const auto& idx : indexInput)
@@ -254,6 +258,10 @@ namespace TinyDIP
         requires(std::integral<std::ranges::range_value_t<Indices>>)
         constexpr decltype(auto) at(const Indices& indexInput)
         {
+            if (static_cast<std::size_t>(std::ranges::distance(indexInput)) != std::ranges::size(size))
+            {
+                throw std::runtime_error("Dimensionality mismatched!");
+            }
             std::size_t i = 0;
             for (const auto& idx : indexInput)
             {
-- 
2.43.0


From 1b691469ef1e845743643c4c06cca3100b8e5c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:10 +0000
Subject: [PATCH 02/38] fix: count() of an image without dimensions is 0, as in
 the execution-policy overload

---
 image.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image.h b/image.h
index 5948af4..82f500c 100644
--- a/image.h
+++ b/image.h
@@ -373,6 +373,7 @@ namespace TinyDIP
 
         constexpr std::size_t count() const noexcept
         {
+            if (std::ranges::empty(size)) return 0;
             return std::reduce(std::ranges::cbegin(size), std::ranges::cend(size), std::size_t{ 1 }, std::multiplies());
         }
 
-- 
2.43.0


From b5942afdec87c7502cd7409211ad273c8469906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:10 +0000
Subject: [PATCH 03/38] fix: Image(vector of rows) rejects rows of different
 lengths

---
 image.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image.h b/image.h
index 82f500c..7840ae8 100644
--- a/image.h
+++ b/image.h
@@ -207,6 +207,10 @@ namespace TinyDIP
             size.emplace_back(std::ranges::size(input));
             for (auto& rows : input)
             {
+                if (std::ranges::size(rows) != size[0])
+                {
+                    throw std::runtime_error("Rows of different lengths!");
+                }
                 image_data.insert(std::ranges::end(image_data), std::ranges::begin(rows), std::ranges::end(rows));    //  flatten
             }
             return;
-- 
2.43.0


From c77e6d451a6c46825a8febacc8648dc112f94666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 04/38] fix: subimage2 rejects coordinates equal to the width
 or height (it read past the row / the data)

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 4f4a4b2..4d67739 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1916,11 +1916,11 @@ namespace TinyDIP
         {
             throw std::runtime_error(Formatter() << "error: starty > endy starty = " << starty << ", endy = " << endy << '\n');
         }
-        if ((startx > input.getWidth()) || (endx > input.getWidth()))
+        if ((startx >= input.getWidth()) || (endx >= input.getWidth()))
         {
             throw std::runtime_error(Formatter() << "error: (startx or endx) > image width\n");
         }
-        if ((starty > input.getHeight()) || (endy > input.getHeight()))
+        if ((starty >= input.getHeight()) || (endy >= input.getHeight()))
         {
             throw std::runtime_error(Formatter() << "error: (starty or endy) > image height\n");
         }
-- 
2.43.0


From 7dd439954c3199d7ebf70effba7e6d33e1fbd4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:41 +0000
Subject: [PATCH 05/38] fix: split_overlap takes each block from its own place
 in the padded image

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 4d67739..0ac1109 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2026,8 +2026,8 @@ namespace TinyDIP
             for (std::size_t x = 0; x < xsegments; ++x)
             {
                 std::vector<std::size_t> new_sizes{block_size_x + 2 * x_extension_pixel_count, block_size_y + 2 * y_extension_pixel_count};
-                auto centerx = x * block_size_x + static_cast<std::size_t>((block_size_x - 1) / 2.0);
-                auto centery = y * block_size_y + static_cast<std::size_t>((block_size_y - 1) / 2.0);
+                auto centerx = x * block_size_x + new_sizes[0] / 2;
+                auto centery = y * block_size_y + new_sizes[1] / 2;
                 std::vector<std::size_t> centers{centerx, centery};
                 output2.push_back(subimage(
                     std::forward<ExecutionPolicy>(execution_policy),
-- 
2.43.0


From c1c69ae85a462bdf3005959c9d5812c541af86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 06/38] fix: pixelwise_transform rejects inputs of different
 sizes (add, divides, modulus and difference read past the smaller one)

---
 image_operations.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 0ac1109..7cee9d4 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2045,6 +2045,10 @@ namespace TinyDIP
     template<std::size_t unwrap_level = 1, class... Args>
     constexpr static auto pixelwise_transform(auto op, const Args&... inputs)
     {
+        if (!((inputs.getSize() == first_of(inputs...).getSize()) && ...))
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
         auto transformed_data = recursive_transform<unwrap_level>(
                 op,
                 inputs.getImageData()...);
-- 
2.43.0


From c94379dec22883a83eb9bba0686ba041d5250646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 07/38] fix: difference of MultiChannel images covers every
 channel (2 channels: out of bounds, 4 and more: garbage)

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 7cee9d4..ae71065 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -3909,7 +3909,7 @@ namespace TinyDIP
             [](InputT element1, InputT element2)
             {
                 InputT output;
-                for(std::size_t channel_index = 0; channel_index < 3; ++channel_index)
+                for(std::size_t channel_index = 0; channel_index < std::size(output.channels); ++channel_index)
                 {
                     output.channels[channel_index] =
                         (element1.channels[channel_index] > element2.channels[channel_index]) ?
-- 
2.43.0


From c2fbce664ca971526d6d58bc2539b4b4638f52eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:33 +0000
Subject: [PATCH 08/38] fix: convolution(is_size_same) crops the convolved
 image (it returned the input unfiltered)

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index ae71065..8edfba4 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -724,9 +724,9 @@ namespace TinyDIP
         {
             output = subimage(
                 std::forward<ExecutionPolicy>(execution_policy),
-                image,
+                output,
                 image.getSize(),
-                get_center_location(std::forward<ExecutionPolicy>(execution_policy), image)
+                get_center_location(std::forward<ExecutionPolicy>(execution_policy), output)
                 );
         }
         return output;
-- 
2.43.0


From 12c66904ba728cd5e3e0be1751c1fec852bfa276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:04 +0000
Subject: [PATCH 09/38] fix: the size check sits in add, multiplies, divides,
 modulus and difference, not in pixelwise_transform (backgroundTest combines
 images of different sizes)

---
 image_operations.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 8edfba4..ee15c4d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2045,10 +2045,6 @@ namespace TinyDIP
     template<std::size_t unwrap_level = 1, class... Args>
     constexpr static auto pixelwise_transform(auto op, const Args&... inputs)
     {
-        if (!((inputs.getSize() == first_of(inputs...).getSize()) && ...))
-        {
-            throw std::runtime_error("Size mismatched!");
-        }
         auto transformed_data = recursive_transform<unwrap_level>(
                 op,
                 inputs.getImageData()...);
@@ -3334,7 +3330,12 @@ namespace TinyDIP
     template<class InputT, class... Args>
     constexpr static Image<InputT> add(const Image<InputT>& input1, const Args&... inputs)
     {
-        return pixelwise_transform(std::plus<>{}, input1, add(inputs...));
+        const auto rest = add(inputs...);
+        if (input1.getSize() != rest.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
+        return pixelwise_transform(std::plus<>{}, input1, rest);
     }
 
     template<class InputT, class... Args>
@@ -3520,7 +3521,12 @@ namespace TinyDIP
     template<class InputT, class... Args>
     constexpr static auto pixelwise_multiplies(const Image<InputT>& input1, const Args&... inputs)
     {
-        return pixelwise_transform(std::multiplies<>{}, input1, pixelwise_multiplies(inputs...));
+        const auto rest = pixelwise_multiplies(inputs...);
+        if (input1.getSize() != rest.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
+        return pixelwise_transform(std::multiplies<>{}, input1, rest);
     }
 
     //  pixelwise_multiplies Template Function Implementation
@@ -3589,12 +3595,14 @@ namespace TinyDIP
     template<class InputT>
     constexpr static Image<InputT> divides(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(std::divides<>{}, input1, input2);
     }
     
     template<class InputT>
     constexpr static Image<InputT> modulus(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(std::modulus<>{}, input1, input2);
     }
 
@@ -3892,6 +3900,7 @@ namespace TinyDIP
     template<arithmetic ElementT = double>
     constexpr static auto difference(const Image<ElementT>& input1, const Image<ElementT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform([](auto&& element1, auto&& element2)
             {
                 if (element1 > element2)
@@ -3905,6 +3914,7 @@ namespace TinyDIP
     requires((std::same_as<InputT, RGB>) || (std::same_as<InputT, RGB_DOUBLE>) || (std::same_as<InputT, HSV>) || is_MultiChannel<InputT>::value)
     constexpr static auto difference(const Image<InputT>& input1, const Image<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return pixelwise_transform(
             [](InputT element1, InputT element2)
             {
-- 
2.43.0


From b5e41dec27bf787acb92b73d781d1712be2e96b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 10/38] fix: bmp_file_read left its file handle open on every
 call

---
 image_io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image_io.cpp b/image_io.cpp
index 4da6d62..8a12f30 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -205,6 +205,7 @@ namespace TinyDIP
             throw std::runtime_error("Fail to read BMP file!");
             return output;
         }             
+        fclose(fp);         //  only checks that the file can be opened; the helpers below open it themselves
         output.FILENAME = fname_bmp;
         int OriginSizeX = bmp_read_x_size(output.FILENAME.string().c_str(),true);
         int OriginSizeY = bmp_read_y_size(output.FILENAME.string().c_str(),true);
-- 
2.43.0


From da8297cc55dcedf8394a193c2d42394c163ebee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:39 +0000
Subject: [PATCH 11/38] fix: bmp_write's header file size counts the row
 padding

---
 image_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_io.cpp b/image_io.cpp
index 8a12f30..81c4964 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -328,7 +328,7 @@ namespace TinyDIP
         0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
         0, 0, 0, 0                        
         };                                
-        unsigned long file_size = (long)xsize * (long)ysize * 3 + 54;
+        unsigned long file_size = ((long)xsize * 3 + FillingByte) * (long)ysize + 54;
         unsigned long width, height;
         std::filesystem::path fname_bmp;
         header[2] = (unsigned char)(file_size &0x000000ff);
-- 
2.43.0


From a4feb7893460f710cdb73511f86548d9e434f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:39 +0000
Subject: [PATCH 12/38] fix: reading a top-down BMP no longer waits for a key
 press per byte and per pixel

---
 image_io.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/image_io.cpp b/image_io.cpp
index 81c4964..ffd9273 100644
--- a/image_io.cpp
+++ b/image_io.cpp
@@ -242,12 +242,6 @@ namespace TinyDIP
                 OriginImageData[i] = 255;
             }
             bmp_read_detail(OriginImageData, output.XSIZE, output.YSIZE, output.FILENAME.string().c_str(), true);
-            for (size_t loop = 0; loop < (output.XSIZE * 3 + output.FILLINGBYTE) * output.YSIZE; loop++)
-            {
-                printf("%d\n", OriginImageData[loop]);
-                auto returnValue = system("read -n 1 -s -p \"Press any key to continue...\n\"");
-                (void)returnValue;
-            }
             for(int y = 0; y < output.YSIZE; y++)
             {
                 for(int x = 0; x < output.XSIZE; x++)
@@ -256,12 +250,6 @@ namespace TinyDIP
                         output.IMAGE_DATA[3 * (y * output.XSIZE + x) + y * output.FILLINGBYTE + (2 - color)] = 
                             OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + (output.YSIZE - y - 1) * output.FILLINGBYTE + (2 - color)];
                     }
-                    printf("Pixel (%d, %d): %d, %d, %d\n", x, y, 
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 2],
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 1],
-                    OriginImageData[3 * ((output.YSIZE - y - 1) * output.XSIZE + x) + 0]);
-                    auto returnValue = system("read -n 1 -s -p \"Press any key to continue...\n\"");
-                    (void)returnValue;
                 }
             }
             free(OriginImageData);
-- 
2.43.0


From aaeadc63504e01d41bf09c717dd6d666c28d5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:25 +0000
Subject: [PATCH 13/38] fix: Histogram begin/end returned iterators into a
 destroyed copy of the counts

---
 histogram.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/histogram.h b/histogram.h
index 50cf0a4..24a0330 100644
--- a/histogram.h
+++ b/histogram.h
@@ -239,12 +239,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cbegin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cbegin();
             }
         }
@@ -252,12 +252,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cend();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cend();
             }
         }
@@ -265,12 +265,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cbegin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cbegin();
             }
         }
@@ -278,12 +278,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.cend();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.cend();
             }
         }
@@ -291,12 +291,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.begin();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.begin();
             }
         }
@@ -304,12 +304,12 @@ namespace TinyDIP
         {
             if constexpr (is_dense)
             {
-                auto get_result = std::get<std::vector<CountT>>(histogram);
+                auto& get_result = std::get<std::vector<CountT>>(histogram);
                 return get_result.end();
             }
             else
             {
-                auto get_result = std::get<std::map<ElementT, CountT>>(histogram);
+                auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
                 return get_result.end();
             }
         }
-- 
2.43.0


From 92933de86f303240b6328a13e5986d25891edb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:14 +0000
Subject: [PATCH 14/38] fix: Histogram += and -= (and so + and -) did not
 compile for any element type

---
 histogram.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/histogram.h b/histogram.h
index 24a0330..97d8756 100644
--- a/histogram.h
+++ b/histogram.h
@@ -315,12 +315,12 @@ namespace TinyDIP
         }
 
         // += operator to add two Histograms
-        Histogram& operator+=(const Histogram& other) const
+        Histogram& operator+=(const Histogram& other)
         {
             if constexpr (is_dense)
             {
                 auto& get_result = std::get<std::vector<CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::vector<CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::vector<CountT>>(other.histogram);
                 if (get_result.size() != get_result_other.size())
                 {
                     throw std::runtime_error("Size mismatched for vector-based histograms!");
@@ -329,18 +329,15 @@ namespace TinyDIP
                 {
                     get_result[i] += get_result_other[i];
                 }
-                histogram = get_result;
-                
             }
             else
             {
                 auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
-                const auto get_result_other = std::get<const std::map<ElementT, CountT>>(other.histogram);
+                const auto get_result_other = std::get<std::map<ElementT, CountT>>(other.histogram);
                 for (const auto& [key, value] : get_result_other)
                 {
                     get_result[key] += value;
                 }
-                histogram = get_result;
             }
             return *this;
         }
@@ -354,12 +351,12 @@ namespace TinyDIP
         }
 
         // -= operator to subtract two Histograms
-        Histogram& operator-=(const Histogram& other) const
+        Histogram& operator-=(const Histogram& other)
         {
             if constexpr (is_dense)
             {
                 auto& get_result = std::get<std::vector<CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::vector<CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::vector<CountT>>(other.histogram);
                 if (get_result.size() != get_result_other.size())
                 {
                     throw std::runtime_error("Size mismatched!");
@@ -376,12 +373,13 @@ namespace TinyDIP
                         result_data[i] = 0;
                     }
                 }
-                return Histogram<ElementT, CountT>{ result_data };
+                get_result = std::move(result_data);
+                return *this;
             }
             else
             {
                 auto& get_result = std::get<std::map<ElementT, CountT>>(histogram);
-                const auto& get_result_other = std::get<const std::map<ElementT, CountT>>(other.histogram);
+                const auto& get_result_other = std::get<std::map<ElementT, CountT>>(other.histogram);
                 std::map<ElementT, CountT> result_data = get_result;
                 for (const auto& [key, value] : get_result_other)
                 {
@@ -397,7 +395,8 @@ namespace TinyDIP
                         }
                     }
                 }
-                return Histogram<ElementT, CountT>{ result_data };
+                get_result = std::move(result_data);
+                return *this;
             }
         }
 
-- 
2.43.0


From 151851535bcc9acae6954886b6a7a4a98b8b382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:14 +0000
Subject: [PATCH 15/38] fix: histogram_with_bins counts from the lowest value
 it is given (other than 0 it wrote outside the bins)

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index ee15c4d..9481946 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1353,7 +1353,7 @@ namespace TinyDIP
         auto image_data = input.getImageData();
         for (std::size_t i = 0; i < image_data.size(); ++i)
         {
-            std::size_t bin_index = std::floor((static_cast<double>(image_data[i]) * static_cast<double>(bins_count)) / (static_cast<double>(max) - static_cast<double>(lowest)));
+            std::size_t bin_index = std::floor(((static_cast<double>(image_data[i]) - static_cast<double>(lowest)) * static_cast<double>(bins_count)) / (static_cast<double>(max) - static_cast<double>(lowest)));
             if (bin_index == bins_count)
             {
                 ++histogram_output[bins_count - 1];
-- 
2.43.0


From 899572dd0b525dc8cfdc8553abcbca5d88dbef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:58 +0000
Subject: [PATCH 16/38] fix: VolumetricImage(width, height, depth) initialised
 width and height from themselves

---
 cube.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cube.h b/cube.h
index e7953f7..83f9f79 100644
--- a/cube.h
+++ b/cube.h
@@ -28,8 +28,8 @@ namespace TinyDIP
 		VolumetricImage() = default;
 
         VolumetricImage(const std::size_t newWidth, const std::size_t newHeight, const std::size_t newDepth):
-            width(width),
-            height(height),
+            width(newWidth),
+            height(newHeight),
             depth(newDepth),
             data(width * height * depth) { }
 
-- 
2.43.0


From 024f93909f48c921d77af72c67adbbbafd879ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:58 +0000
Subject: [PATCH 17/38] fix: the size checks of volumetric images call members
 that exist (+=, -=, *=, /= and subtract did not compile)

---
 cube_operations.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cube_operations.h b/cube_operations.h
index bce1bc7..69b3ec4 100644
--- a/cube_operations.h
+++ b/cube_operations.h
@@ -18,7 +18,7 @@ namespace TinyDIP
     template<typename ElementT>
     constexpr bool is_width_same(const VolumetricImage<ElementT>& x, const VolumetricImage<ElementT>& y)
     {
-        return x.getSizeX() == y.getSizeX();
+        return x.getWidth() == y.getWidth();
     }
 
     template<typename ElementT>
@@ -30,7 +30,7 @@ namespace TinyDIP
     template<typename ElementT>
     constexpr bool is_height_same(const VolumetricImage<ElementT>& x, const VolumetricImage<ElementT>& y)
     {
-        return x.getSizeY() == y.getSizeY();
+        return x.getHeight() == y.getHeight();
     }
     
     template<typename ElementT>
@@ -42,7 +42,7 @@ namespace TinyDIP
     template<typename ElementT>
     constexpr bool is_depth_same(const VolumetricImage<ElementT>& x, const VolumetricImage<ElementT>& y)
     {
-        return x.getSizeZ() == y.getSizeZ();
+        return x.getDepth() == y.getDepth();
     }
 
     template<typename ElementT>
-- 
2.43.0


From 112ca7045211fbef0a8e9e6ffde3662d09e43c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:58 +0000
Subject: [PATCH 18/38] fix: plus, multiplies, divides and modulus of
 volumetric images reject volumes of different sizes (they read past the
 smaller one)

---
 cube_operations.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cube_operations.h b/cube_operations.h
index 69b3ec4..23209a2 100644
--- a/cube_operations.h
+++ b/cube_operations.h
@@ -189,7 +189,9 @@ namespace TinyDIP
     template<class InputT, class... Args>
     constexpr static VolumetricImage<InputT> plus(const VolumetricImage<InputT>& input1, const Args&... inputs)
     {
-        return voxelwiseOperation(std::plus<>{}, input1, plus(inputs...));
+        const auto others = plus(inputs...);
+        check_size_same(input1, others);
+        return voxelwiseOperation(std::plus<>{}, input1, others);
     }
 
     template<class InputT, class... Args>
@@ -225,6 +227,7 @@ namespace TinyDIP
     template<class InputT>
     constexpr static VolumetricImage<InputT> multiplies(const VolumetricImage<InputT>& input1, const VolumetricImage<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return voxelwiseOperation(std::multiplies<>{}, input1, input2);
     }
 
@@ -255,6 +258,7 @@ namespace TinyDIP
     template<class InputT>
     constexpr static VolumetricImage<InputT> divides(const VolumetricImage<InputT>& input1, const VolumetricImage<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return voxelwiseOperation(std::divides<>{}, input1, input2);
     }
 
@@ -279,6 +283,7 @@ namespace TinyDIP
     template<class InputT>
     constexpr static VolumetricImage<InputT> modulus(const VolumetricImage<InputT>& input1, const VolumetricImage<InputT>& input2)
     {
+        check_size_same(input1, input2);
         return voxelwiseOperation(std::modulus<>{}, input1, input2);
     }
 
-- 
2.43.0


From 97f6366b42dcf83bad8e86f9cc52c3eab035c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:12 +0000
Subject: [PATCH 19/38] fix: draw_point draws the visible part of a disc that
 crosses the top or left border

The unsigned start coordinate wrapped below zero, so nothing at all was drawn.
---
 image_operations.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 9481946..c1d0dae 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6209,10 +6209,12 @@ namespace TinyDIP
         auto output = input;
         auto height = input.getHeight();
         auto width = input.getWidth();
+        const std::size_t start_y = (point_y > radius) ? (point_y - radius) : 0;
+        const std::size_t start_x = (point_x > radius) ? (point_x - radius) : 0;
         #pragma omp parallel for collapse(2)
-        for (std::size_t y = point_y - radius; y <= point_y + radius; ++y)
+        for (std::size_t y = start_y; y <= point_y + radius; ++y)
         {
-            for (std::size_t x = point_x - radius; x <= point_x + radius; ++x)
+            for (std::size_t x = start_x; x <= point_x + radius; ++x)
             {
                 if (x >= width || y >= height)
                 {
-- 
2.43.0


From 0c7ff42e628d0403b35404e2c05757ab4328859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:12 +0000
Subject: [PATCH 20/38] fix: highlight_region clips the frame to the image

Near the top or left border the unsigned start wrapped below zero and nothing
was drawn; near the bottom or right border at() threw.
---
 image_operations.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index c1d0dae..20f702b 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -1948,9 +1948,14 @@ namespace TinyDIP
         assert(startx <= endx);
         assert(starty <= endy);
         auto output = input;
-        for (std::size_t y = starty - width / 2; y < endy + width / 2; ++y)
-        {
-            for (std::size_t x = startx - width / 2; x < endx + width / 2; ++x)
+        const std::size_t margin = width / 2;
+        const std::size_t first_x = (startx > margin) ? (startx - margin) : 0;
+        const std::size_t first_y = (starty > margin) ? (starty - margin) : 0;
+        const std::size_t last_x = std::min(endx + margin, static_cast<std::size_t>(input.getWidth()));
+        const std::size_t last_y = std::min(endy + margin, static_cast<std::size_t>(input.getHeight()));
+        for (std::size_t y = first_y; y < last_y; ++y)
+        {
+            for (std::size_t x = first_x; x < last_x; ++x)
             {
                 if (std::abs(static_cast<int>(x) - static_cast<int>(startx)) < width ||
                     std::abs(static_cast<int>(x) - static_cast<int>(endx)) < width ||
-- 
2.43.0


From 686106491277d759f3454ccbb7e319e10a30a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:11 +0000
Subject: [PATCH 21/38] fix: windowed_filter takes its windows from the
 unfiltered image (it read pixels it had already overwritten)

---
 image_operations.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 20f702b..fa963fe 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5825,6 +5825,7 @@ namespace TinyDIP
                 value_for_constant_padding
             );
         }
+        auto filtered_image = padded_image;     //  windows are taken from the unfiltered image
         // Iterate over all elements in the original image
         const std::size_t total_elements = input.count();
         #ifndef USE_OPENMP
@@ -5857,7 +5858,7 @@ namespace TinyDIP
             );
 
             // Apply filter and store result
-            padded_image.at(padded_indices) =
+            filtered_image.at(padded_indices) =
                 std::invoke(filter, window);
 
             // Progress reporting
@@ -5905,18 +5906,18 @@ namespace TinyDIP
             );
 
             // Apply filter and store result
-            padded_image.at_without_boundary_check(padded_indices) =
+            filtered_image.at_without_boundary_check(padded_indices) =
                 std::invoke(filter, window);
         }
         #endif
         // Crop padded image to original size
         std::vector<std::size_t> original_sizes = input.getSize();
         std::vector<std::size_t> centers;
-        for (auto& s : padded_image.getSize())
+        for (auto& s : filtered_image.getSize())
         {
             centers.emplace_back(s / 2);  // Center of padded image
         }
-        auto output = subimage(std::forward<ExecutionPolicy>(execution_policy), padded_image, original_sizes, centers);
+        auto output = subimage(std::forward<ExecutionPolicy>(execution_policy), filtered_image, original_sizes, centers);
         return output;
     }
 
-- 
2.43.0


From 7890294a0a731b500b2d59118e39dedb5f4ee878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:11 +0000
Subject: [PATCH 22/38] fix: bilateral_filter's spatial distance no longer
 wraps around for pixels left of or above the centre

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index fa963fe..fcffd04 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6048,7 +6048,7 @@ namespace TinyDIP
                             double sum_of_squares = 0.0;
                             for (std::size_t i = 0; i < vector1.size(); i++)
                             {
-                                sum_of_squares += std::pow(vector1[i] - vector2[i], 2.0);
+                                sum_of_squares += std::pow(static_cast<double>(vector1[i]) - static_cast<double>(vector2[i]), 2.0);
                             }
                             return std::sqrt(sum_of_squares);
                         }
-- 
2.43.0


From 5b8faba720939ab67bb7d13f3cc3afb506785fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:47 +0000
Subject: [PATCH 23/38] fix: imgaussfilt centres its kernel (odd filter sizes
 shifted the image by one pixel right and down)

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index fcffd04..24f350c 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -5646,14 +5646,14 @@ namespace TinyDIP
         );
         auto filter_mask_x = gaussianFigure1D(
                                     filter_size1,
-                                    (static_cast<double>(filter_size1) + 1.0) / 2.0,
+                                    filter_size1 / 2,
                                     sigma1);
         auto sum_result = sum(std::forward<ExecutionPolicy>(execution_policy), filter_mask_x);
         filter_mask_x = divides(filter_mask_x, sum_result);             //  Normalization
         auto output = conv2(padded_image, filter_mask_x, true);
         auto filter_mask_y = transpose(std::forward<ExecutionPolicy>(execution_policy), gaussianFigure1D(
                                         filter_size2,
-                                        (static_cast<double>(filter_size2) + 1.0) / 2.0,
+                                        filter_size2 / 2,
                                         sigma2));
         sum_result = sum(filter_mask_y);
         filter_mask_y = divides(filter_mask_y, sum_result);             //  Normalization
-- 
2.43.0


From 625f9e314c89fc7e12ed3ed9610fde3f43c53401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 24/38] fix: generate counts its pixels in std::size_t (2^31
 and more pixels overflowed an int and threw)

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 24f350c..e942f69 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -366,7 +366,7 @@ namespace TinyDIP
     constexpr static auto generate(F gen, const Sizes& sizes)
     {
         using ElementT = std::invoke_result_t<F>;
-        auto count = std::reduce(std::ranges::cbegin(sizes), std::ranges::cend(sizes), 1, std::multiplies());
+        auto count = std::reduce(std::ranges::cbegin(sizes), std::ranges::cend(sizes), std::size_t{ 1 }, std::multiplies());
         std::vector<ElementT> element_vector(count);
         std::ranges::generate(element_vector, gen);
         Image<ElementT> image(element_vector, sizes);
-- 
2.43.0


From fb3c3afc7528cd8acbcf6c950c4448c3b0267009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:53 +0000
Subject: [PATCH 25/38] fix: resize_nearest_neighbor maps coordinates in
 integers (a rounded ratio picked the wrong source pixel, e.g. column 49 of 2
 -> 98)

---
 image_operations.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index e942f69..5d4460d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2249,16 +2249,13 @@ namespace TinyDIP
 
         Image<ElementT> resized_image(new_width, new_height);
 
-        const double x_ratio = static_cast<double>(old_width) / static_cast<double>(new_width);
-        const double y_ratio = static_cast<double>(old_height) / static_cast<double>(new_height);
-
         #pragma omp parallel for schedule(static)
         for (std::size_t y = 0; y < new_height; ++y)
         {
             for (std::size_t x = 0; x < new_width; ++x)
             {
-                const std::size_t source_x = static_cast<std::size_t>(x * x_ratio);
-                const std::size_t source_y = static_cast<std::size_t>(y * y_ratio);
+                const std::size_t source_x = x * old_width / new_width;
+                const std::size_t source_y = y * old_height / new_height;
                 resized_image.at_without_boundary_check(x, y) = image.at_without_boundary_check(source_x, source_y);
             }
         }
-- 
2.43.0


From cf0d1d10a33d8c1c37e482ac7d1ee1cb715cdbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:53 +0000
Subject: [PATCH 26/38] fix: cubic_interpolate keeps the fraction for integral
 pixels (it was truncated to 0, so bicubic resizing was nearest neighbour)

---
 image_operations.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/image_operations.h b/image_operations.h
index 5d4460d..279f590 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2266,6 +2266,13 @@ namespace TinyDIP
     template<class InputT1, class InputT2>
     constexpr static auto cubic_interpolate(const InputT1 v0, const InputT1 v1, const InputT1 v2, const InputT1 v3, const InputT2 frac)
     {
+        if constexpr (std::is_integral_v<std::remove_cvref_t<InputT1>>)
+        {
+            return cubic_interpolate(
+                static_cast<InputT2>(v0), static_cast<InputT2>(v1), static_cast<InputT2>(v2), static_cast<InputT2>(v3), frac);
+        }
+        else
+        {
         auto A = (v3-v2)-(v0-v1);
         auto B = (v0-v1)-A;
         auto C = v2-v0;
@@ -2288,6 +2295,7 @@ namespace TinyDIP
         {
             return D + frac * (C + frac * (B + frac * A));
         }
+        }
     }
 
     //  bicubicPolate template function implementation
-- 
2.43.0


From ffa5686c61dae8c0b295026e68ab0501ba7ce69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:54 +0000
Subject: [PATCH 27/38] fix: lanczos_resample rounds integral pixels (rounding
 errors darkened even constant images by one)

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 279f590..735943b 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2484,7 +2484,7 @@ namespace TinyDIP
                     else
                     {
                         output_image.at(x_new, y_new) = static_cast<ElementT>(std::clamp(
-                            normalized_val,
+                            std::is_integral_v<ElementT> ? std::round(normalized_val) : normalized_val,
                             static_cast<ComputeT>(std::numeric_limits<ElementT>::lowest()),
                             static_cast<ComputeT>(std::numeric_limits<ElementT>::max())
                         ));
@@ -2590,7 +2590,7 @@ namespace TinyDIP
                     else
                     {
                         output_image.at(x_new, y_new) = static_cast<ElementT>(std::clamp(
-                            normalized_val,
+                            std::is_integral_v<ElementT> ? std::round(normalized_val) : normalized_val,
                             static_cast<ComputeT>(std::numeric_limits<ElementT>::lowest()),
                             static_cast<ComputeT>(std::numeric_limits<ElementT>::max())
                         ));
-- 
2.43.0


From 6de22db6c241a3555ed389f795b130bac211bf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:54 +0000
Subject: [PATCH 28/38] fix: dft2 negates unsigned pixels after the conversion
 (32- and 64-bit unsigned pixels wrapped around)

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 735943b..0eccba1 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -752,7 +752,7 @@ namespace TinyDIP
                     {
                         sum_real += input.at_without_boundary_check(m, n) * 
                             std::cos(2 * std::numbers::pi_v<long double> * (x * m / static_cast<long double>(input.getWidth()) + y * n / static_cast<long double>(input.getHeight())));
-                        sum_imag += -input.at_without_boundary_check(m, n) * 
+                        sum_imag += -static_cast<long double>(input.at_without_boundary_check(m, n)) * 
                             std::sin(2 * std::numbers::pi_v<long double> * (x * m / static_cast<long double>(input.getWidth()) + y * n / static_cast<long double>(input.getHeight())));
                     }
                 }
-- 
2.43.0


From 41d3cd92000cf92a1337bb8f5745b77b98b12fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:54 +0000
Subject: [PATCH 29/38] fix: idct3 names the template arguments of
 idct3_one_plane correctly (it did not compile)

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 0eccba1..9f48dae 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -3827,7 +3827,7 @@ namespace TinyDIP
         output.resize(input.size());
         for (std::size_t i = 0; i < input.size(); ++i)
         {
-            output[i] = idct3_one_plane<ElementT, OutputT>(input, i);
+            output[i] = idct3_one_plane<std::vector<Image<ElementT>>, ElementT, OutputT>(input, i);
         }
         return output;
     }
-- 
2.43.0


From 899cad86df7c21492e9bb7f0dfe8d2fc6c1aaa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 30/38] fix: keypoint_refinement inverts the Hessian with its
 diagonal swapped

The inverse of [[xx, xy], [xy, yy]] has yy in the x row and xx in the y row.
---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 9f48dae..d35f19d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6675,10 +6675,10 @@ namespace TinyDIP
             const ElementT second_derivative_x = (input.at(std::size_t{ 2 }, std::size_t{ 1 }) + input.at(std::size_t{ 0 }, std::size_t{ 1 }) - 2.0 * input.at(std::size_t{ 1 }, std::size_t{ 1 }));
             const ElementT second_derivative_y = (input.at(std::size_t{ 1 }, std::size_t{ 2 }) + input.at(std::size_t{ 1 }, std::size_t{ 0 }) - 2.0 * input.at(std::size_t{ 1 }, std::size_t{ 1 }));
             const ElementT second_derivative_xy = (input.at(std::size_t{ 2 }, std::size_t{ 2 }) - input.at(std::size_t{ 2 }, std::size_t{ 0 }) - input.at(std::size_t{ 0 }, std::size_t{ 2 }) + input.at(std::size_t{ 0 }, std::size_t{ 0 })) / 4.0;
-            const ElementT A = -second_derivative_x / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
+            const ElementT A = -second_derivative_y / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
             const ElementT B = second_derivative_xy / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
             const ElementT C = B;
-            const ElementT D = -second_derivative_y / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
+            const ElementT D = -second_derivative_x / (second_derivative_x * second_derivative_y - second_derivative_xy * second_derivative_xy);
             const ElementT offset_x = A * first_derivative_x + B * first_derivative_y;
             const ElementT offset_y = C * first_derivative_x + D * first_derivative_y;
             return std::make_tuple(
-- 
2.43.0


From 44053a41eae3180e154cc6eeb77ad008e54a4f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 31/38] fix: mapping_point loses a pixel to rounding when sizes
 are equal

1 / 49 * 49 is below 1, so the point was mapped to 0.
---
 image_operations.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index d35f19d..fa52203 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6716,11 +6716,10 @@ namespace TinyDIP
             const std::size_t target_width,
             const std::size_t target_height)
         {
-            FloatingType width_percentage = static_cast<FloatingType>(std::get<0>(input_location)) / static_cast<FloatingType>(input_width);
-            FloatingType height_percentage = static_cast<FloatingType>(std::get<1>(input_location)) / static_cast<FloatingType>(input_height);
+            //  multiply before dividing: x / w * w can fall just below x
             return Point<2>{
-                static_cast<std::size_t>(width_percentage * static_cast<FloatingType>(target_width)),
-                static_cast<std::size_t>(height_percentage * static_cast<FloatingType>(target_height))
+                static_cast<std::size_t>(static_cast<FloatingType>(std::get<0>(input_location)) * static_cast<FloatingType>(target_width) / static_cast<FloatingType>(input_width)),
+                static_cast<std::size_t>(static_cast<FloatingType>(std::get<1>(input_location)) * static_cast<FloatingType>(target_height) / static_cast<FloatingType>(input_height))
             };
         }
 
-- 
2.43.0


From 1031c309e74d2494d48275c700d4fd2098aad532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 32/38] fix: keypoints near the top or left border get an empty
 histogram or descriptor

The window start wrapped around below zero, so the loop never ran.
---
 image_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index fa52203..b9021ef 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -7125,9 +7125,9 @@ namespace TinyDIP
             }
             std::vector<double> raw_histogram;
             raw_histogram.resize(37);
-            for (std::size_t y = point.p[1] - block_size; y <= point.p[1] + block_size; ++y)
+            for (std::size_t y = point.p[1] - std::min(point.p[1], block_size); y <= point.p[1] + block_size; ++y)
             {
-                for (std::size_t x = point.p[0] - block_size; x <= point.p[0] + block_size; ++x)
+                for (std::size_t x = point.p[0] - std::min(point.p[0], block_size); x <= point.p[0] + block_size; ++x)
                 {
                     if (x >= input.getWidth() || y >= input.getHeight())
                     {
@@ -7154,9 +7154,9 @@ namespace TinyDIP
             Image<std::tuple<FloatingType, FloatingType>> pixel_orientations(block_size * 2, block_size * 2);
             const auto center_x = keypoint_location.p[0];
             const auto center_y = keypoint_location.p[1];
-            for (std::size_t y = center_y - block_size; y < center_y + block_size; ++y)
+            for (std::size_t y = center_y - std::min(center_y, block_size); y < center_y + block_size; ++y)
             {
-                for (std::size_t x = center_x - block_size; x < center_x + block_size; ++x)
+                for (std::size_t x = center_x - std::min(center_x, block_size); x < center_x + block_size; ++x)
                 {
                     if (x >= input.getWidth() || y >= input.getHeight())
                     {
-- 
2.43.0


From f55e47459fcb803b049ddedf350806b2c9a65bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 33/38] fix: create_stitched_image shifts the second image the
 wrong way

The plain overload of warp_perspective takes the map from output to source, so the canvas
translation has to be undone before the homography, as the overload with a policy does.
---
 image_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index b9021ef..8ffc2a3 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -8129,12 +8129,12 @@ namespace TinyDIP
         const std::size_t out_height = static_cast<std::size_t>(std::ceil(max_y - min_y));
 
         linalg::Matrix<FloatingType> H_trans(3,3);
-        H_trans.at(0,0) = 1; H_trans.at(0,1) = 0; H_trans.at(0,2) = trans_x;
-        H_trans.at(1,0) = 0; H_trans.at(1,1) = 1; H_trans.at(1,2) = trans_y;
+        H_trans.at(0,0) = 1; H_trans.at(0,1) = 0; H_trans.at(0,2) = -trans_x;
+        H_trans.at(1,0) = 0; H_trans.at(1,1) = 1; H_trans.at(1,2) = -trans_y;
         H_trans.at(2,0) = 0; H_trans.at(2,1) = 0; H_trans.at(2,2) = 1;
 
-        // Combine translation with the original homography
-        auto H_final = linalg::multiply(H_trans, H_in);
+        // The warp maps canvas coordinates to img2: first back to img1's frame, then by the original homography
+        auto H_final = linalg::multiply(H_in, H_trans);
 
         // 2. Warp img2 to align with img1's coordinate frame
         std::cout << "Warping image 2...\n";
-- 
2.43.0


From 65de43c5f7f4d347f45f494c40bea142f772ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:38 +0000
Subject: [PATCH 34/38] fix: find_local_extrema appends to one vector from many
 threads

The data race could lose or corrupt points; their order depended on the schedule.
---
 image_operations.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 8ffc2a3..3c4bc5c 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -6760,7 +6760,9 @@ namespace TinyDIP
             std::vector<std::tuple<std::size_t, std::size_t, ElementT, ElementT>> output;
             auto width = input1.getWidth() - 1;
             auto height = input1.getHeight() - 1;
-            #pragma omp parallel for collapse(2)
+            //  each row collects its own points, so that no two threads append to the same vector
+            std::vector<std::vector<std::tuple<std::size_t, std::size_t, ElementT, ElementT>>> rows(input1.getHeight());
+            #pragma omp parallel for
             for (std::size_t y = 1; y < height; ++y)
             {
                 for (std::size_t x = 1; x < width; ++x)
@@ -6773,7 +6775,7 @@ namespace TinyDIP
                         if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold) && keypoint_filtering(subimage2, contrast_check_threshold, edge_response_threshold))
                         {
                             auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
-                            output.emplace_back(
+                            rows[y].emplace_back(
                                 std::make_tuple(
                                     octave_index,
                                     scale_index,
@@ -6786,7 +6788,7 @@ namespace TinyDIP
                         if (is_it_extremum(subimage1, subimage2, subimage3, contrast_check_threshold))
                         {
                             auto new_location = keypoint_refinement(subimage2, std::make_tuple(x, y));
-                            output.emplace_back(
+                            rows[y].emplace_back(
                                 std::make_tuple(
                                     octave_index,
                                     scale_index,
@@ -6797,6 +6799,10 @@ namespace TinyDIP
                     
                 }
             }
+            for (auto&& row : rows)
+            {
+                output.insert(output.end(), row.begin(), row.end());
+            }
             return output;
         }
 
-- 
2.43.0


From 908b22acba04f6124fe998ad8e3af2f38eaa47cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:14 +0000
Subject: [PATCH 35/38] fix: euclidean_distance of images subtracts in the
 unsigned pixel type and accepts colour images of different shape

---
 image_operations.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 3c4bc5c..9cdfa4d 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4204,7 +4204,7 @@ namespace TinyDIP
         }
         return std::sqrt(two_input_map_reduce(std::forward<ExPo>(execution_policy), input1.getImageData(), input2.getImageData(), OutputT{},
             [&](auto&& element1, auto&& element2) {
-                return std::pow(element1 - element2, 2.0);
+                return std::pow(static_cast<OutputT>(element1) - static_cast<OutputT>(element2), 2.0);
             }));
     }
 
@@ -4238,9 +4238,19 @@ namespace TinyDIP
         const Image<ElementT2>& input2
         )
     {
+        if (input1.getSize() != input2.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
         return sqrt(execution_policy, two_input_map_reduce(std::forward<ExPo>(execution_policy), input1.getImageData(), input2.getImageData(), MultiChannel<double>{},
             [&](auto&& element1, auto&& element2) {
-                return pow(execution_policy, element1 - element2, 2.0);
+                MultiChannel<double> difference{};
+                for (std::size_t channel_index = 0; channel_index < 3; ++channel_index)
+                {
+                    difference.channels[channel_index] =
+                        static_cast<double>(element1.channels[channel_index]) - static_cast<double>(element2.channels[channel_index]);
+                }
+                return pow(execution_policy, difference, 2.0);
             }));
     }
 
@@ -4257,6 +4267,10 @@ namespace TinyDIP
         const Image<MultiChannel<ElementT2, Size>>& input2
         )
     {
+        if (input1.getSize() != input2.getSize())
+        {
+            throw std::runtime_error("Size mismatched!");
+        }
         return sqrt(std::forward<ExPo>(execution_policy), two_input_map_reduce(std::forward<ExPo>(execution_policy), input1.getImageData(), input2.getImageData(), MultiChannel<ElementT1, Size>{},
             [&](auto&& element1, auto&& element2) {
                 return pow(execution_policy, element1 - element2, 2.0);
-- 
2.43.0


From 8e33ed922bf97b206f5376d258efd0b57472121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:14 +0000
Subject: [PATCH 36/38] fix: euclidean_distance of ranges does not compile

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 9cdfa4d..5c30492 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4158,7 +4158,7 @@ namespace TinyDIP
         using RealType = get_underlying_real_type_t<ValueType>;
         using PromotedType = std::conditional_t<std::is_floating_point_v<RealType>, RealType, double>;
 
-        const auto sq_dist = squared_euclidean_distance(std::forward<ExecutionPolicy>(execution_policy), range1, range2);
+        const auto sq_dist = squared_euclidean_distance{}(std::forward<ExecutionPolicy>(execution_policy), range1, range2);
         return std::sqrt(static_cast<PromotedType>(sq_dist));
     }
 
@@ -4179,7 +4179,7 @@ namespace TinyDIP
         using RealType = get_underlying_real_type_t<ValueType>;
         using PromotedType = std::conditional_t<std::is_floating_point_v<RealType>, RealType, double>;
 
-        const auto sq_dist = squared_euclidean_distance(range1, range2);
+        const auto sq_dist = squared_euclidean_distance{}(range1, range2);
         return std::sqrt(static_cast<PromotedType>(sq_dist));
     }
 
-- 
2.43.0


From cfb4be38700e14210c4ded988d0d8fe4fd7d5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:16 +0000
Subject: [PATCH 37/38] fix: min and max of a multi-channel image look at three
 channels whatever their number

---
 image_operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image_operations.h b/image_operations.h
index 5c30492..8fe4945 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -4371,7 +4371,7 @@ namespace TinyDIP
     requires ((std::same_as<ElementT, RGB>) || (std::same_as<ElementT, RGB_DOUBLE>) || (std::same_as<ElementT, HSV>) || is_MultiChannel<ElementT>::value)
     constexpr static auto min(const Image<ElementT>& input)
     {
-        return apply_each_single_output(3, input, [&](auto&& each_plane) { return min(each_plane); });
+        return apply_each_single_output(std::ranges::size(ElementT{}.channels), input, [&](auto&& each_plane) { return min(each_plane); });
     }
 
     //  max template function implementation
@@ -4386,7 +4386,7 @@ namespace TinyDIP
     requires ((std::same_as<ElementT, RGB>) || (std::same_as<ElementT, RGB_DOUBLE>) || (std::same_as<ElementT, HSV>) || is_MultiChannel<ElementT>::value)
     constexpr static auto max(const Image<ElementT>& input)
     {
-        return apply_each_single_output(3, input, [&](auto&& each_plane) { return max(each_plane); });
+        return apply_each_single_output(std::ranges::size(ElementT{}.channels), input, [&](auto&& each_plane) { return max(each_plane); });
     }
 
     //  minmax template function implementation
-- 
2.43.0


From 0d6eede00df4f171bc4f97d0fba2284fbf906d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:46 +0000
Subject: [PATCH 38/38] fix: cubic_interpolate with an integral fraction
 recursed for ever at compile time

---
 image_operations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image_operations.h b/image_operations.h
index 8fe4945..7ecaa2c 100644
--- a/image_operations.h
+++ b/image_operations.h
@@ -2266,7 +2266,7 @@ namespace TinyDIP
     template<class InputT1, class InputT2>
     constexpr static auto cubic_interpolate(const InputT1 v0, const InputT1 v1, const InputT1 v2, const InputT1 v3, const InputT2 frac)
     {
-        if constexpr (std::is_integral_v<std::remove_cvref_t<InputT1>>)
+        if constexpr (std::is_integral_v<std::remove_cvref_t<InputT1>> && std::is_floating_point_v<InputT2>)
         {
             return cubic_interpolate(
                 static_cast<InputT2>(v0), static_cast<InputT2>(v1), static_cast<InputT2>(v2), static_cast<InputT2>(v3), frac);
-- 
2.43.0

