From 04f0bcf18607a724341b5f8bfad781bafdc85c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 01/70] fix: average() with quiet=True failed on an unset
 progress bar

---
 strata/average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 6d18641..bbeb7b6 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -175,7 +175,8 @@ def average(base, output, group=1, rolling=False, **kwargs):
         if not quiet:
             progress.update(i+1)
 
-    progress.finish()
+    if not quiet:
+        progress.finish()
 
 
 def recenter_maps(data_maps, recenter_values):
-- 
2.43.0


From 2a892649e05495ee8d6466e333fe3e65a4767c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 02/70] fix: average() with combine wrote the combined bins
 with the original grid shape

---
 strata/average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index bbeb7b6..16f11ed 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -150,7 +150,7 @@ def average(base, output, group=1, rolling=False, **kwargs):
         avg_data = module.average_data(*group_data)
 
         if combine != (None, None):
-            avg_data, _ = module.combine_bins(avg_data, info, nx, ny)
+            avg_data, info = module.combine_bins(avg_data, info, nx, ny)
 
         if supersample != None:
             data = [(l, avg_data[l]) for l in avg_data.keys()]
-- 
2.43.0


From 66921d1d2d57085d1fef45600a7a2437b2739ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 03/70] fix: combining bins of gmx maps shifted the grid by
 half a bin

---
 strata/dataformats/gmx_flow_version_1/main.py | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/strata/dataformats/gmx_flow_version_1/main.py b/strata/dataformats/gmx_flow_version_1/main.py
index e72dd4a..9187d4a 100644
--- a/strata/dataformats/gmx_flow_version_1/main.py
+++ b/strata/dataformats/gmx_flow_version_1/main.py
@@ -1,5 +1,27 @@
-from strata.dataformats.simple.average import average_data, combine_bins
+import strata.dataformats.simple.average as simple_average
+
+from strata.dataformats.simple.average import average_data
 from strata.dataformats.gmx_flow_version_1.read import read_data
 from strata.dataformats.gmx_flow_version_1.write import write_data
 
-"""Main functionality of this module is called from here."""
\ No newline at end of file
+"""Main functionality of this module is called from here."""
+
+
+def combine_bins(data, info, nx, ny):
+    """Combine bins of data read from this format.
+
+    See strata.dataformats.simple.average.combine_bins for information.
+
+    The origin of this format is the lower corner of the first bin instead
+    of its center, which does not move when bins are combined.
+
+    """
+
+    center = [x0 + 0.5*dx for x0, dx in zip(info['origin'], info['spacing'])]
+
+    new_data, new_info = simple_average.combine_bins(
+        data, dict(info, origin=center), nx, ny
+    )
+    new_info['origin'] = list(info['origin'])
+
+    return new_data, new_info
-- 
2.43.0


From 9badd8cbc5fe2b98f92c6f01fd7c519081da9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 04/70] fix: average() with supersample wrote the fine bins
 with the original grid shape and order

---
 strata/average.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/strata/average.py b/strata/average.py
index 16f11ed..848e58b 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -154,17 +154,27 @@ def average(base, output, group=1, rolling=False, **kwargs):
 
         if supersample != None:
             data = [(l, avg_data[l]) for l in avg_data.keys()]
-            info = {
+            flow_info = {
                 'shape': info['shape'],
                 'spacing': info['spacing'],
             }
 
-            flow = FlowData(*data, info=info)
+            flow = FlowData(*data, info=flow_info)
 
             supersampled_data = supersample_flow_data(
                 flow, supersample, weights=[('U', 'M'), ('V', 'M'), ('T', 'N')]
             )
 
+            # The supersampled data is y-major, but is written x-major
+            supersampled_data.sort(coord_labels=('Y', 'X'))
+
+            info = {
+                'shape': supersampled_data.shape,
+                'spacing': supersampled_data.spacing,
+                'origin': info['origin'],
+                'num_bins': supersampled_data.data.size,
+            }
+
             avg_data = {
                 l: supersampled_data.data[l]
                 for l in supersampled_data.properties
-- 
2.43.0


From 83f4de20bcfd396faad47909697e26bcb24803e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 05/70] fix: average() with xlim or ylim wrote the remaining
 bins with the original grid shape

---
 strata/average.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/strata/average.py b/strata/average.py
index 848e58b..4f4bbcc 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -112,6 +112,7 @@ def average(base, output, group=1, rolling=False, **kwargs):
 
         for data, info, meta in read_from_files(*fn_group):
             if cut_x_or_y:
+                info = get_cut_info(data, info, xlim, ylim)
                 data = cut_system(data, xlim, ylim)
 
             group_data.append(data)
@@ -267,3 +268,20 @@ def cut_system(data, xlim, ylim):
         data[key] = data[key][inds]
 
     return data
+
+
+def get_cut_info(data, info, xlim, ylim):
+    """Return the information of the grid that remains after `cut_system`."""
+
+    origin, shape = [], []
+
+    for label, x0, (vmin, vmax) in zip(('X', 'Y'), info['origin'], (xlim, ylim)):
+        vs = np.unique(data[label])
+        inds = (vs >= (vmin if vmin != None else -np.inf)) \
+            & (vs <= (vmax if vmax != None else np.inf))
+
+        # The origin is not at the first bin center in all formats
+        origin.append(x0 + np.min(vs[inds], initial=np.inf) - np.min(vs))
+        shape.append(np.count_nonzero(inds))
+
+    return dict(info, origin=origin, shape=shape, num_bins=shape[0] * shape[1])
-- 
2.43.0


From 467ec444034c96ba5ee75abdf9a4a808bc827fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 06/70] fix: recenter_maps() could lose a column from the shape
 through float truncation

---
 strata/average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 4f4bbcc..c056f70 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -239,7 +239,7 @@ def recenter_maps(data_maps, recenter_values):
     # for all final maps we can cheat a little bit
     origin = [xmin, np.min(data_subset['Y'])]
     spacing = [spacing, np.mean(np.diff(np.unique(data_subset['Y'])))]
-    nx = int((xmax - xmin)/spacing[0]) + 1
+    nx = int(np.round((xmax - xmin)/spacing[0])) + 1
     num_bins = data_subset['X'].size
     shape = [nx, num_bins // nx]
 
-- 
2.43.0


From 76ba36f00a52fad50843beb73e39814305f0ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 07/70] fix: average() with recenter shifted the grid of gmx
 maps by half a bin

---
 strata/average.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strata/average.py b/strata/average.py
index c056f70..9ac7446 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -146,7 +146,11 @@ def average(base, output, group=1, rolling=False, **kwargs):
             else:
                 raise ValueError("Invalid position to recenter around ('%s'). Must be 'com', 'left' or 'right'" % recenter)
 
+            # The origin is not at the first bin center in all formats
+            offset = [x0 - np.min(data[l]) for l, x0 in zip(('X', 'Y'), info['origin'])]
+
             group_data, info = recenter_maps(group_data, xs_edges)
+            info['origin'] = [x0 + dx for x0, dx in zip(info['origin'], offset)]
 
         avg_data = module.average_data(*group_data)
 
-- 
2.43.0


From 259ad25865f3fbe5ae3d4710eda4c11034be107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 08/70] fix: 'strata interface collect' failed after collecting
 the interfaces

---
 strata/strata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/strata.py b/strata/strata.py
index 0c7439a..7be1845 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -495,7 +495,7 @@ def interface_collect_cli(base, output, **kwargs):
 
     set_none_to_inf(kwargs)
     if kwargs['recenter'] == 'off': kwargs['recenter'] = None
-    xs, ys = collect_interfaces(base, output, **kwargs)
+    collect_interfaces(base, output, **kwargs)
 
 
 # Interface viewing wrapper
-- 
2.43.0


From 93744116727d641b579d6e7e6286d1d49c3dba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 09/70] fix: the documented 'strata contact_line' command was
 not available with click >= 7

---
 strata/strata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/strata.py b/strata/strata.py
index 7be1845..651b25b 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -656,7 +656,7 @@ def interface_angle_cli(base, **kwargs):
     interface_contact_angle(base, **kwargs)
 
 # Contact line averaging wrapper
-@strata.group()
+@strata.group(name=cmd_contactline['name'])
 def contact_line(name=cmd_contactline['name'], short_help=cmd_contactline['desc']):
     """Analyze the contact line bins."""
     pass
-- 
2.43.0


From fd018dddb39bebdaa7cf875e40fe83ceeb815d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 10/70] fix: drawing spreading data failed since pyplot.hold is
 removed

---
 strata/spreading/fit.py  | 1 -
 strata/spreading/view.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 13663dc..cdcdf5a 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -170,7 +170,6 @@ def plot_fitting_data(fit_data, data, **kwargs):
 
     """
 
-    plt.hold(True)
     for s_fit, s_data in zip(fit_data, data):
         fit_label = s_fit.name.strip(s_data.name).strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index cde7325..3cdf2e4 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -349,6 +349,5 @@ def plot_spreading_data(all_series, **kwargs):
 
     """
 
-    plt.hold(True)
     for s in all_series:
         plt.plot(s.index, s.values, **kwargs)
-- 
2.43.0


From 738cabe8448c22f022cb9f2487ef9ad185ad1c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 11/70] fix: view_interfaces() could not save the averaged
 interfaces

---
 strata/interface/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/interface/view.py b/strata/interface/view.py
index 60f2f82..58182ad 100644
--- a/strata/interface/view.py
+++ b/strata/interface/view.py
@@ -82,7 +82,8 @@ def view_interfaces(base, average=1, save_xvg='', **kwargs):
             continue
 
         if save_xvg != '':
-            write_interface_data(fnout, interface, fngroup, kwargs)
+            coords = {'X': interface.values, 'Y': interface.index.values}
+            write_interface_data(fnout, coords, fngroup, kwargs)
 
         if save_fig != None:
             kwargs['save_fig'] = next(fnfig)
-- 
2.43.0


From a687b0534060338966dc2b9ca445e4524cc068b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 12/70] fix: shape of contact line bins with a single layer or
 non-square bins

---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 7d9c66e..56854b3 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -439,7 +439,7 @@ def add_adjusted_flow(bins, direction, info):
         y0 = ys[0]
         nx = 1
 
-        while (ys[nx] >= y0 - 0.5 * dy) and (ys[nx] < y0 + 0.5 * dx):
+        while nx < ys.size and ys[nx] < y0 + 0.5 * dy:
             nx += 1
 
         ny = data.size // nx
-- 
2.43.0


From afab226aaa0d0c92ce1d9445ab91ef9573f6b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 13/70] fix: extracted contact line bins could not be written

---
 strata/contact_line_analysis.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 56854b3..adb0d98 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -69,7 +69,18 @@ def extract_contact_line_bins(base, output, average=1,
             fuse_edges(avg_flow_per_edge, spacing)
 
         recombined_flow_data = combine_flow_data(avg_flow_per_edge, spacing)
-        write(next(fnout), recombined_flow_data.data)
+
+        # Files are written in x-major order and with the bin corner as origin,
+        # which are the coordinates of the recombined (y-major) data
+        nx, ny = recombined_flow_data.shape
+        data = recombined_flow_data.data.reshape(ny, nx).T.ravel()
+        info = {
+            'shape': (nx, ny),
+            'spacing': spacing,
+            'origin': (data['X'].min(), data['Y'].min()),
+        }
+
+        write(next(fnout), data, info)
 
 
 """Fuse the left and right edges in the center."""
-- 
2.43.0


From 66f10500baa21ef35c5e5377af35ea60c1d4dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 14/70] fix: sampling of contact line edges failed on an
 undefined deviation

---
 strata/contact_line_analysis.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index adb0d98..5d29f2c 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -194,17 +194,17 @@ def sample_contact_line_edges(base, labels, save=None,
                     ]
 
                 means = [t[0] for t in means_and_stds]
-                # stds = [t[1] for t in means_and_stds]
+                stds = [t[1] for t in means_and_stds]
 
                 if sum:
                     value = np.sum(means)
                 else:
                     value = np.mean(means)
 
-                # try:
-                    # std = np.mean([t[1] for t in means_and_stds])
-                # except:
-                    # std = None
+                try:
+                    std = np.mean(stds)
+                except TypeError:
+                    std = None
 
                 samples[j].append([value, std])
             except Exception as exc:
-- 
2.43.0


From 66face6fd2dfa6e363dda71bb81fddc0a5dce34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 15/70] fix: contact line analysis with quiet=True failed on an
 unset progress bar

---
 strata/contact_line_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 5d29f2c..1279ce1 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -279,6 +279,7 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
         return (nx, ny)
 
     quiet = kwargs.pop('quiet', False)
+    progress = None
     if not quiet:
         if rolling:
             length = len(filenames) - average + 1
-- 
2.43.0


From 2b020ce9ab9b293303f8dcc3a62753ee8342fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 16/70] fix: gmx maps with only a few bins were read from the
 wrong file position

---
 strata/dataformats/gmx_flow_version_1/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 692be0f..06917bd 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -79,7 +79,7 @@ def read_header(fp):
 
             if pos != -1:
                 header_str += buf[:pos].decode("ascii")
-                offset = buf_size - pos - 1
+                offset = len(buf) - pos - 1
                 fp.seek(-offset, 1)
                 break
             else:
-- 
2.43.0


From 1cb5233ae523c9f69bcea4096bd06b369b688d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 17/70] fix: reading a gmx map truncated inside its header
 never returned

---
 strata/dataformats/gmx_flow_version_1/read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 06917bd..ab7d86c 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -75,6 +75,9 @@ def read_header(fp):
         while True:
             buf = fp.read(buf_size)
 
+            if not buf:
+                raise ValueError("file ended before the end of the header")
+
             pos = buf.find(b'\0')
 
             if pos != -1:
-- 
2.43.0


From 3dd57714d2a118e8840f5bc3c6a4b44c67047036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 18/70] fix: gmx maps truncated inside their data were read as
 partly or fully empty

---
 strata/dataformats/gmx_flow_version_1/read.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index ab7d86c..dfa22ec 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -48,11 +48,16 @@ def read_values(fp, num_values, fields):
         'V': np.float32,
     }
 
-    return {
+    data = {
         l: np.fromfile(fp, dtype=dtypes[l], count=num_values)
         for l in fields
     }
 
+    if any(values.size != num_values for values in data.values()):
+        raise ValueError("file ended before all of its values were read")
+
+    return data
+
 def read_header(fp):
     """Read header information and forward the pointer to the data."""
 
-- 
2.43.0


From b547c559672e6b9501cbe769681e1912b99bdb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 19/70] fix: simple maps with a single row or column were read
 with NaN coordinates

---
 strata/dataformats/simple/read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 73758c4..83e06b9 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -99,11 +99,11 @@ def calc_information(X, Y):
             x0 = np.min(xs)
             x1 = np.max(xs)
 
-            try:
-                return (x1 - x0) / (n - 1)
-            except:
+            if n < 2:
                 return 0.0
 
+            return (x1 - x0) / (n - 1)
+
         dx = calc_1d(X, nx)
         dy = calc_1d(Y, ny)
 
-- 
2.43.0


From cfdaef14c0374bf20a883f35595275148d4627d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 20/70] fix: simple plaintext maps with a single bin could not
 be read

---
 strata/dataformats/simple/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 83e06b9..97da196 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -169,7 +169,7 @@ def read_plainsimple(filename):
     """
 
     def read_file(filename):
-        raw_data = np.genfromtxt(filename, names=True)
+        raw_data = np.atleast_1d(np.genfromtxt(filename, names=True))
 
         # Unpack into dictionary
         data = {}
-- 
2.43.0


From 36f2ba8940b0a0070ec22f32271fb4955e370efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 21/70] fix: binary simple maps starting with ASCII compatible
 values were read as plaintext

---
 strata/dataformats/simple/read.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 97da196..9d4032f 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -28,8 +28,7 @@ def read_data(filename, decimals=5):
         def is_binary(filename, checksize=512):
             with open(filename, 'r') as fp:
                 try:
-                    fp.read(checksize)
-                    return False
+                    return '\0' in fp.read(checksize)
                 except UnicodeDecodeError:
                     return True
 
-- 
2.43.0


From 87f626ff102368794f5a9cae88535ec1b1e58d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 22/70] fix: only the first spreading collected by a process
 was written with its impact time and legend

---
 strata/spreading/collect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index d7ae38e..6b177f3 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -90,6 +90,7 @@ def collect(base, **kwargs):
     save = kwargs.pop('save', None)
     if save != None:
         save = prepare_output(save, kwargs.copy(), fopts)
+        write_spreading.impact = False
 
     quiet = kwargs.pop('quiet', False)
 
-- 
2.43.0


From 76c23124702f6d5b60110ed5197a7befb02975e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 23/70] fix: periodic interface search assumed that the system
 begins at x = 0

---
 droplets/interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index fe6baa6..fb84ea0 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -291,11 +291,12 @@ def get_interface(flow, label, **kwargs):
         # This means that we can walk through the system and assert that
         # all bins within the cutoff radius are included, even if they are
         # on the other side of the periodic boundary.
-        left_edge_indices = np.where(data[xlabel] <= cutoff_radius)
+        xmin = np.min(data[xlabel])
+        left_edge_indices = np.where(data[xlabel] <= xmin + cutoff_radius)
         left_pbc_data = data[left_edge_indices]
         left_pbc_data[xlabel] += box_x
 
-        right_edge_indices = np.where(data[xlabel] >= box_x - cutoff_radius)
+        right_edge_indices = np.where(data[xlabel] >= xmin + box_x - cutoff_radius)
         right_pbc_data = data[right_edge_indices]
         right_pbc_data[xlabel] -= box_x
 
-- 
2.43.0


From b1e70fbac61168dd82fb787cb5949d0f42ce2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 24/70] fix: periodic interface search returned the wrong bins
 for unsorted data

---
 droplets/interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index fb84ea0..5184dfe 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -316,8 +316,8 @@ def get_interface(flow, label, **kwargs):
 
             # These are then the full data for the layer of the current y-value.
             # We then sort it, to traverse it in the order of increasing x.
-            layer = data[indices]
-            sorted_layer = np.sort(layer, order=xlabel)
+            indices = indices[np.argsort(data[xlabel][indices])]
+            sorted_layer = data[indices]
 
             # Limit the search for cell neighbours in the data which is
             # within the possible radius of the layer.
@@ -343,7 +343,6 @@ def get_interface(flow, label, **kwargs):
             # one was found), as indices from the input `sorted_layer`.
             # We then return the corresponding indices from our full
             # dataset.
-            # TODO: This does not account for an unsorted input dataset though??
             if result != None:
                 left, right = result
                 yield [indices[edge] for edge in (left, right)]
-- 
2.43.0


From 2c7bce34e1e179cd27ec3d2699744409aa5daa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 25/70] fix: default cutoff radius of the interface search
 ignored the distance between layers

---
 droplets/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index 5184dfe..b4b9ec6 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -182,7 +182,7 @@ def get_interface(flow, label, **kwargs):
         if radius == None:
             xdiff = np.diff(np.unique(data[xlabel]))
             ydiff = np.diff(np.unique(data[ylabel]))
-            radius = next(np.min(map(np.min, (xdiff, ydiff))))
+            radius = np.min(np.append(xdiff, ydiff))
 
         return radius
 
-- 
2.43.0


From 558cb171aa31fb5718151b1456ae96537ba81960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 26/70] fix: get_contact_angle() raised an exception if no
 angle was found

---
 droplets/interface.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index b4b9ec6..151a573 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -76,13 +76,18 @@ def get_contact_angle(flow, height, label, **kwargs):
     kwargs['ylims'] = (yfloor, None)
 
     interface = get_interface(flow, label, **kwargs)
-    indices = next(interface)
+    indices = next(interface, None)
+    if indices is None:
+        return None, None
+
     ymin, xedges = get_coords(flow, indices)
 
     # Break if a floor was specified and no cells are found in that layer
     if floor != None and ymin != yfloor:
         return None, None
 
+    angles = (None, None)
+
     for indices in interface:
         y, xs = get_coords(flow, indices)
         dy = y - ymin
-- 
2.43.0


From 1bc2c1bdb2ce744fd23259f9b5e0b3c119f4ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 27/70] fix: density gradients used the bin spacing of the
 other axis

---
 strata/view_flowmap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index ac48508..aa9599e 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -416,14 +416,14 @@ def add_density_gradient(flow):
     from numpy.lib.recfunctions import append_fields
 
     (nx, ny) = flow.shape
-    spacing = flow.spacing
+    (dx, dy) = flow.spacing
 
     flow.sort()
 
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], dy, dx, edge_order=1
         )
 
     flow.data = append_fields(flow.data, 'grad_rho_x', mass_gradient_x.ravel(),
@@ -447,14 +447,14 @@ def add_evaporation(flow):
     from numpy.lib.recfunctions import append_fields
 
     (nx, ny) = flow.shape
-    spacing = flow.spacing
+    (dx, dy) = flow.spacing
 
     flow.sort()
 
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], dy, dx, edge_order=1
         )
 
     us = data['U']
-- 
2.43.0


From f3e6da052e4f4e054249dbcdd58d992094c9870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 28/70] fix: get_quiver_data() dropped bins with flow along a
 single axis

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index aa9599e..e06fa0e 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -185,7 +185,7 @@ def get_quiver_data(data, labels, coord_labels, colour, clim, xlim, ylim):
     us, vs = (data[l] for l in labels)
 
     # Cut bins without flow
-    inds = (us != 0.) & (vs != 0.)
+    inds = (us != 0.) | (vs != 0.)
 
     # Apply limits on coordinates
     inds = inds & cut_system(xs, xlim) & cut_system(ys, ylim)
-- 
2.43.0


From 460a2a3a3cc2c05ece8019bf19b7e29691d2b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 29/70] fix: spreading data files with a single time were read
 as empty

---
 strata/spreading/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index 3cdf2e4..ab21dd2 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -184,7 +184,7 @@ def read_spreading_data(*files):
         def read_plain_file(filename):
             """Read a simple file, comments starting with '#'."""
 
-            data = np.loadtxt(filename, unpack=True, comments='#')
+            data = np.loadtxt(filename, unpack=True, comments='#', ndmin=2)
             times = data[0]
             all_series = [get_series(radii, times, filename, i+1)
                     for i, radii in enumerate(data[1:])]
-- 
2.43.0


From 6fe8b14a1c4c4ba7e4845d8ab75d9edd296888d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 30/70] fix: average_flow_data() failed with other coordinate
 labels than X and Y

---
 droplets/average.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/droplets/average.py b/droplets/average.py
index a3d8a27..ce6bedd 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -57,8 +57,8 @@ def average_flow_data(input_flow_maps, weights=[],
 
     def get_flowdata(data, grid, spacing):
         ny, nx = grid.shape
-        x0 = grid[0, 0]['X']
-        y0 = grid[0, 0]['Y']
+        x0 = grid[0, 0][xl]
+        y0 = grid[0, 0][yl]
 
         info = {
                 'shape': (nx, ny),
-- 
2.43.0


From d00331973f47d05282d80d73320a92564e06053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 31/70] fix: average_flow_data() failed when including empty
 data sets

---
 droplets/average.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index ce6bedd..ad4fdb8 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -202,6 +202,9 @@ def transfer_data(grid, data, shape, spacing, coord_labels=('X', 'Y')):
     xl, yl = coord_labels
     projected_data = grid.copy()
 
+    if data.size == 0:
+        return projected_data.ravel()
+
     dx, dy = spacing
     nx, ny = shape
 
-- 
2.43.0


From b5416c872ebbf48feda25704914f42fab595010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 32/70] fix: sampling the slip length after the viscous
 dissipation used the wrong bins

---
 strata/sample_average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/sample_average.py b/strata/sample_average.py
index 660ce81..6eb57cf 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -122,7 +122,8 @@ def sample_average_files(base, labels, output=None, sum=False, dt=1.,
                 if label == 'slip_length':
                     value, std = sample_slip_length(flow, floor=slip_floor)
                 else:
-                    value, std = sample_value(flow, label, cutoff, cutoff_label, sum, viscosity)
+                    # The sampling may sort the data, which other labels should not see
+                    value, std = sample_value(flow.copy(), label, cutoff, cutoff_label, sum, viscosity)
 
                 sampled_values[j].append(value)
                 sampled_stds[j].append(std)
-- 
2.43.0


From 0c73f36f74e04d21ef98ccfd00e577f95aa46f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 33/70] fix: periodic information of interfaces shifted between
 layers by float truncation

---
 strata/interface/collect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index d419846..ffa8bf0 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -161,7 +161,10 @@ def get_yindex_for_value(y, yindex_data):
     """
 
     y = min(max(y, yindex_data.ymin), yindex_data.ymax)
-    return int((y - yindex_data.ymin) / yindex_data.dy)
+    index = (y - yindex_data.ymin) / yindex_data.dy
+
+    # A value at a grid point is below it only by its floating point error
+    return int(index + 1e-6)
 
 def transfer_values(xs, yindex_data, yindex_data_new):
     """Transfer data from an array to one with a new indexing.
-- 
2.43.0


From 2d7236a06bf5503c327929087304c02035a1e164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 34/70] fix: sample_per_angle_from() put bins straight to the
 left of the origin at angle 0

---
 droplets/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index 35747ae..a2f1253 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -64,8 +64,9 @@ def sample_per_angle_from(flow, origin, label,
     inds_rlim = (drs >= rmin) & (drs <= rmax)
     data_rlim = flow.data[inds_rlim]
 
-    bin_rads = np.sign(dys[inds_rlim]) \
-        * np.arccos(dxs[inds_rlim]/drs[inds_rlim])
+    # No angle is defined for a bin at the origin
+    bin_rads = np.where(drs[inds_rlim] > 0.,
+        np.arctan2(dys[inds_rlim], dxs[inds_rlim]), np.nan)
     bin_degrees = np.mod(np.degrees(bin_rads), 360)
 
     # Apply angular cutoffs to remaining bins
-- 
2.43.0


From 2fb335ff66e1c67fa75dcfdc7a8c4c0a58dba643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 35/70] fix: sample_per_angle_from() left out the bins of the
 last angular interval

---
 droplets/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index a2f1253..c84fb13 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -50,6 +50,7 @@ def sample_per_angle_from(flow, origin, label,
     """
 
     amin = max(0., amin)
+    amax_data = amax
     amax = min(360. - size, amax)
     out_angles = np.arange(amin, amax + size, size)
 
@@ -70,7 +71,7 @@ def sample_per_angle_from(flow, origin, label,
     bin_degrees = np.mod(np.degrees(bin_rads), 360)
 
     # Apply angular cutoffs to remaining bins
-    inds_alim = (bin_degrees >= amin) & (bin_degrees <= amax)
+    inds_alim = (bin_degrees >= amin) & (bin_degrees <= amax_data)
     data_alim = data_rlim[inds_alim]
     label_data = data_alim[label]
 
-- 
2.43.0


From 10bd169c9ac72e6339d59b2ee5de813fea4f893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 36/70] fix: periodic spreading edges of systems that do not
 begin at x = 0

---
 strata/spreading/collect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 6b177f3..fa93c9a 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -119,8 +119,10 @@ def collect(base, **kwargs):
         if left != None and right != None:
             box_x, _ = flow.size()
 
+            # Boundary crossings are detected relative to the system edge
+            x0 = np.min(flow.data['X'])
             pbc_info = check_and_update_periodic_info(
-                pbc_info, box_x, left, right
+                pbc_info, box_x, left - x0, right - x0
             )
 
             left_absolute, right_absolute = add_pbc_multipliers_to_edges(
-- 
2.43.0


From d52ae1ab0e9843b642feaef75282db563f911544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 37/70] fix: periodic interface edges of systems that do not
 begin at x = 0

---
 strata/interface/collect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index ffa8bf0..6168cd6 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -116,11 +116,15 @@ def get_interface_coordinates(flow, label, pbc_info_per_y, yindex_data,
 
     box_x, _ = flow.size()
 
+    # Boundary crossings are detected relative to the system edge
+    x0 = np.min(flow.data[xl])
+
     interface, pbc_info_per_y, yindex_data = update_interface_with_pbc_info(
-        ys, xs_left, xs_right, box_x, pbc_info_per_y, yindex_data
+        ys, xs_left - x0, xs_right - x0, box_x, pbc_info_per_y, yindex_data
     )
 
     xs = interface['X']
+    xs += x0
     ys = interface['Y']
 
     ys -= ys[0]
-- 
2.43.0


From af0106e4c2846c729b5a62a89690bb75eb0e2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 38/70] fix: view_flowmap_2d() of the viscous dissipation
 failed for more than one file

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index e06fa0e..bb89867 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -264,7 +264,7 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
         if label == 'flow':
             flow.data = add_absolute_flow(flow.data)
 
-        if label == 'visc_diss':
+        if label in ['visc_diss', 'visc']:
             label = 'visc'
             add_viscous_dissipation(flow, viscosity=8.77e-4)
 
-- 
2.43.0


From 46691d9ef9b8ad418957b8943ba96cc90cc24d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 39/70] fix: the default type of view_flowmap_2d() was not
 available

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index bb89867..de6e63e 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -219,7 +219,7 @@ def plot_quiver(xs, ys, us, vs, weights, pivot, vlim, **kwargs):
 
     return fig
 
-def view_flowmap_2d(*files, label='M', type='heightmap',
+def view_flowmap_2d(*files, label='M', type='height',
         cutoff_label='M', cutoff=None,
         **kwargs):
     """View bin data of input files.
-- 
2.43.0


From 0c6a8c717482b534c323d94e7e39183e84e49af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 40/70] fix: edges at the boundary after several turns around
 it were moved the wrong way

---
 strata/spreading/collect.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index fa93c9a..5ed8dbe 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -287,9 +287,6 @@ def check_and_update_periodic_info(pbc_info, box_x,
     pbc_multiplier_left = pbc_info.pbc_multiplier_left
     pbc_multiplier_right = pbc_info.pbc_multiplier_right
 
-    xleft = xleft_current + pbc_multiplier_left * box_x
-    xright = xright_current + pbc_multiplier_right * box_x
-
     try:
         crossing_event = detect_crossing_event(xleft_current, xright_current,
             pbc_info.xleft_prev, pbc_info.xright_prev)
@@ -306,11 +303,11 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
             if dx_left > dx_right:
                 pbc_multiplier_left += get_pbc_edge_multiplier_addition(
-                    xleft, box_x
+                    xleft_current, box_x
                 )
             else:
                 pbc_multiplier_right += get_pbc_edge_multiplier_addition(
-                    xright, box_x
+                    xright_current, box_x
                 )
 
     pbc_info = PeriodicInfo(
-- 
2.43.0


From b64f89cf9ace03ec82d6538671149bd87aa4233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 41/70] fix: rolling contact line analysis failed for fewer
 files than to average

---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 1279ce1..0af12c7 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -282,7 +282,7 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
     progress = None
     if not quiet:
         if rolling:
-            length = len(filenames) - average + 1
+            length = max(len(filenames) - average + 1, 0)
         else:
             length = int(len(filenames) / average)
 
-- 
2.43.0


From f279ac4d1226f5756254f2d8ea66fd82edfbee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 42/70] fix: stream lines could not be drawn for regular grids

---
 strata/view_flowmap.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index de6e63e..196e2c9 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -90,14 +90,17 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     xmin, xmax = xlim
     ymin, ymax = ylim
 
-    mask = (data[cutoff_label] < cutoff_value)
+    if cutoff_label is None or cutoff_value is None:
+        mask = np.zeros(data.shape, dtype=bool)
+    else:
+        mask = (data[cutoff_label] < cutoff_value)
 
     data = np.ma.array(data, mask=mask)
 
-    x0 = max(data['X'].min(), xmin if xmin else -np.inf)
-    x1 = min(data['X'].max(), xmax if xmax else np.inf)
-    y0 = max(data['Y'].min(), ymin if ymin else -np.inf)
-    y1 = min(data['Y'].max(), ymax if ymax else np.inf)
+    x0 = max(data['X'].min(), xmin if xmin != None else -np.inf)
+    x1 = min(data['X'].max(), xmax if xmax != None else np.inf)
+    y0 = max(data['Y'].min(), ymin if ymin != None else -np.inf)
+    y1 = min(data['Y'].max(), ymax if ymax != None else np.inf)
 
     inds = (data[xlabel] >= x0) \
         & (data[xlabel] <= x1) \
@@ -111,9 +114,11 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     y0 = data[ylabel].min()
     y1 = data[ylabel].max()
 
-    nx = int((x1 - x0) / dx) + 2
-    ny = int((y1 - y0) / dy) + 2
+    nx = int(round((x1 - x0) / dx)) + 1
+    ny = int(round((y1 - y0) / dy)) + 1
 
+    # The bins may have been sorted in y-major order when adding data
+    data = data[np.lexsort((data[ylabel], data[xlabel]))]
     data = data.reshape(nx, ny).transpose()
 
     x = x0 + np.arange(nx) * dx
@@ -134,8 +139,8 @@ def plot_streamlines(xs, ys, us, vs, weights, line_weights=None, **kwargs):
 
     ny, nx = us.shape
 
-    density_x = nx // 30
-    density_y = ny // 30
+    density_x = max(nx // 30, 1)
+    density_y = max(ny // 30, 1)
 
     linewidth = 1.5 * line_weights / line_weights.max()
 
-- 
2.43.0


From 31fa0c5a9c7bde9b5ac5d65d237c127300ab3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 43/70] fix: contours of dissipation, gradients and evaporation
 were drawn with mixed bins

---
 strata/view_flowmap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 196e2c9..ae33440 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -336,6 +336,10 @@ def contour(data, info, label, **kwargs):
     if (vmin != None or vmax != None) and levels == None:
         data[label] = data[label].clip(vmin, vmax)
 
+    # The bins may have been sorted in y-major order when adding data
+    xlabel, ylabel = kwargs['coord_labels']
+    data = data[np.lexsort((data[ylabel], data[xlabel]))]
+
     grid_data = data.reshape(info['shape'])
     xs, ys = (grid_data[l] for l in kwargs['coord_labels'])
     cs = grid_data[label]
-- 
2.43.0


From 4d30a7bf544a46b787363a48f30858775f4812a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 44/70] fix: height maps could not be drawn with a cutoff on
 the flow or dissipation

---
 strata/view_flowmap.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index ae33440..1b51710 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -266,11 +266,13 @@ def view_flowmap_2d(*files, label='M', type='height',
     for i, (data, info, _) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
 
-        if label == 'flow':
+        if 'flow' in (label, cutoff_label):
             flow.data = add_absolute_flow(flow.data)
 
-        if label in ['visc_diss', 'visc']:
+        if label == 'visc_diss':
             label = 'visc'
+
+        if 'visc' in (label, cutoff_label):
             add_viscous_dissipation(flow, viscosity=8.77e-4)
 
         if label == 'evaporation':
@@ -279,7 +281,7 @@ def view_flowmap_2d(*files, label='M', type='height',
         if label in ['grad_rho_x', 'grad_rho_y']:
             add_density_gradient(flow)
 
-        if cutoff != None and cutoff_label != None:
+        if cutoff != None and cutoff_label not in (None, 'None'):
             flow = flow.lims(cutoff_label, cutoff, None)
 
         if print_avg_value:
-- 
2.43.0


From ba4fcfabc034ad07c40258363a1552c893203779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 45/70] fix: stream lines could not be drawn without colouring

---
 strata/view_flowmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 1b51710..f6e6824 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -127,7 +127,8 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     u = data['U']
     v = data['V']
 
-    weights = data[colour]
+    # Weights are either from input label or none, as for arrows
+    weights = data[colour] if colour in data.dtype.names else None
     line_weights = data['M']
 
     return x, y, u, v, weights, line_weights
-- 
2.43.0


From 4b997e570a5a4337b79e1011056802405a672fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 46/70] fix: stream lines were not drawn of the chosen flow
 labels

---
 strata/view_flowmap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index f6e6824..26508ef 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -124,8 +124,7 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
     x = x0 + np.arange(nx) * dx
     y = y0 + np.arange(ny) * dy
 
-    u = data['U']
-    v = data['V']
+    u, v = (data[l] for l in labels)
 
     # Weights are either from input label or none, as for arrows
     weights = data[colour] if colour in data.dtype.names else None
-- 
2.43.0


From 4d2e22bd7f8b8d67734f39c3b8ec1a5308953f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 47/70] fix: height maps with a cutoff were drawn as slivers
 between empty cells

---
 strata/view_flowmap.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 26508ef..a10b294 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -318,7 +318,16 @@ def height(data, info, label, **kwargs):
 
     fig, ax = create_figure(**kwargs)
 
-    ax.hist2d(xs, ys, weights=data[label], bins=info['shape'],
+    # The cells are centered on the bins, of which some may have been cut
+    bins, extent = [], []
+    for cs, size in zip((xs, ys), info['spacing']):
+        size = size if size > 0. else 1.
+        start, end = (cs.min(), cs.max()) if cs.size > 0 else (0., 0.)
+
+        bins.append(int(round((end - start) / size)) + 1)
+        extent.append((start - 0.5 * size, end + 0.5 * size))
+
+    ax.hist2d(xs, ys, weights=data[label], bins=bins, range=extent,
             cmin=cmin, cmax=cmax, vmin=vmin, vmax=vmax)
 
     return fig
-- 
2.43.0


From a387cf7b807141d2424a6e71624e95510a3320f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 48/70] fix: cutoff labels without a cutoff value do not need
 their data

---
 strata/view_flowmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index a10b294..3b3532b 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -258,6 +258,10 @@ def view_flowmap_2d(*files, label='M', type='height',
     except KeyError:
         raise TypeError("Can not draw type '%r'." % type)
 
+    # Only with a value is there a cutoff
+    if cutoff == None or cutoff_label == 'None':
+        cutoff_label = None
+
     print_avg_value = kwargs.get('average_value', False)
     kwargs.setdefault('axis', 'scaled')
     kwargs.setdefault('noaxis', True)
@@ -281,7 +285,7 @@ def view_flowmap_2d(*files, label='M', type='height',
         if label in ['grad_rho_x', 'grad_rho_y']:
             add_density_gradient(flow)
 
-        if cutoff != None and cutoff_label not in (None, 'None'):
+        if cutoff_label != None:
             flow = flow.lims(cutoff_label, cutoff, None)
 
         if print_avg_value:
-- 
2.43.0


From a9a6cd6cb2ead92a29999c3e296c2c9982784b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 49/70] fix: spreading fit saved no figure without showing it

---
 strata/spreading/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index cdcdf5a..6d47e26 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -49,7 +49,7 @@ def fit_spreading_data(files, lims=(None, None), save_xvg=None,
     if save_xvg != None:
         write_fitting_data(save_xvg, fit_data, lims, out_lims)
 
-    if kwargs.get('show', True):
+    if kwargs.get('show', True) or kwargs.get('save_fig', None) != None:
         plot_fitting_data(fit_data, data, **kwargs)
 
     return fit_params
-- 
2.43.0


From 7f298996c662f655cf023d65e47a786f054d6702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 50/70] fix: legends of spreading fits lost characters of the
 fitted values

---
 strata/spreading/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 6d47e26..0e1a053 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -171,7 +171,7 @@ def plot_fitting_data(fit_data, data, **kwargs):
     """
 
     for s_fit, s_data in zip(fit_data, data):
-        fit_label = s_fit.name.strip(s_data.name).strip()
+        fit_label = s_fit.name[len(s_data.name):].strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
         plt.plot(s_fit.index, s_fit.values, label=fit_label, **kwargs)
 
-- 
2.43.0


From 546518c02724cafd5f79da7931e41f88238da384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 51/70] fix: headers of collected interfaces named the output
 as their input

---
 strata/interface/collect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index 6168cd6..fe8149f 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -66,7 +66,7 @@ def collect_interfaces(base, output, recenter=None, **kwargs):
             flow, label, pbc_info_per_y, yindex_data, recenter, **kwargs
         )
 
-        write_interface_data(fnout, interface, [fnout], kwargs, recenter)
+        write_interface_data(fnout, interface, [fn], kwargs, recenter)
 
         if not quiet:
             progress.update(i + 1)
-- 
2.43.0


From 660b49ed239a829626d328db7e0917d11695d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 52/70] fix: headers of sampled data always had a time
 difference of 1

---
 strata/contact_line_analysis.py | 2 +-
 strata/interface/angle.py       | 2 +-
 strata/interface/sample.py      | 2 +-
 strata/sample_average.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 0af12c7..332c528 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -140,7 +140,7 @@ def sample_contact_line_edges(base, labels, save=None,
     """
 
     def prepare_output(output, labels, cutoff, cutoff_label, average, rolling, header_opts, fopts):
-        header_opts.update(fopts)
+        header_opts.update(fopts, dt=dt)
         write_header(output, base, labels, cutoff, cutoff_label, average, rolling, header_opts)
 
     fopts = pop_fileopts(kwargs)
diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index 3b3edc9..bcec824 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -93,7 +93,7 @@ def interface_contact_angle(base, fit=False, height=None, delta_t=1., save_xvg=N
 
     if save_xvg:
         write_angle_data(save_xvg, base, height, times, contact_angles,
-            begin=fopts['begin'], end=fopts['end'])
+            begin=fopts['begin'], end=fopts['end'], delta_t=delta_t)
 
     if kwargs.get('show', True) or kwargs.get('save_fig', None):
         kwargs.setdefault('axis', 'tight')
diff --git a/strata/interface/sample.py b/strata/interface/sample.py
index 45b83ab..4860d9a 100644
--- a/strata/interface/sample.py
+++ b/strata/interface/sample.py
@@ -32,7 +32,7 @@ def sample_interfaces(base, variable, save_xvg='', delta_t=1., **kwargs):
     """
 
     def prepare_output(save_xvg, base, variable, dt, header_opts, fopts):
-        header_opts.update(fopts)
+        header_opts.update(fopts, dt=dt)
         write_header(save_xvg, base, variable, dt, header_opts)
 
     kwargs.setdefault('ext', '.xvg')
diff --git a/strata/sample_average.py b/strata/sample_average.py
index 6eb57cf..13d2a7d 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -82,7 +82,7 @@ def sample_average_files(base, labels, output=None, sum=False, dt=1.,
     """
 
     def prepare_output(output, labels, cutoff, cutoff_label, header_opts, fopts):
-        header_opts.update(fopts)
+        header_opts.update(fopts, dt=dt)
         write_header(output, base, labels, cutoff, cutoff_label, header_opts)
 
     fopts = pop_fileopts(kwargs)
-- 
2.43.0


From fed34572205b2dfd5b9dd8749abb6022bc7bda9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 53/70] fix: headers of spreading data always had a radius
 cut-off of 1

---
 strata/spreading/collect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 5ed8dbe..865af63 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -364,7 +364,7 @@ def write_header(output_path, input_base, kwargs):
                 % (os.path.realpath(input_base),
                     kwargs.get('begin', None), kwargs.get('end', None),
                     kwargs.get('floor', None), kwargs.get('dt', 1.),
-                    kwargs.get('cutoff', None), kwargs.get('include_radius', 1.),
+                    kwargs.get('cutoff', None), kwargs.get('cutoff_radius', 1.),
                     kwargs.get('cutoff_bins', 1)))
 
         fp.write(header + inputs)
-- 
2.43.0


From f1b758d0f42f53b292665e0507e7fe05ead98b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 54/70] fix: binary simple maps of only ASCII values were read
 as plaintext

---
 strata/dataformats/simple/read.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 9d4032f..20db032 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -28,10 +28,14 @@ def read_data(filename, decimals=5):
         def is_binary(filename, checksize=512):
             with open(filename, 'r') as fp:
                 try:
-                    return '\0' in fp.read(checksize)
+                    text = fp.read(checksize)
                 except UnicodeDecodeError:
                     return True
 
+            # Plaintext begins with the names of its fields
+            header = text.lstrip().split('\n')[0]
+            return '\0' in text or 'X' not in header or 'Y' not in header
+
         if is_binary(filename):
             return read_binsimple
         else:
-- 
2.43.0


From 79ae0c4dedb08d02072a86e15dec4b8fdbf1bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 55/70] fix: dimensions of figures of maps were not in pixels
 of the figure

---
 strata/view_flowmap.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 3b3532b..0b3379b 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -40,6 +40,9 @@ def view_flowfields(*files, labels=('U', 'V'), cutoff_label='M', cutoff=None,
 
     kwargs.setdefault('axis', 'scaled')
 
+    # Dimensions are in pixels of the saved figure
+    kwargs['fig_dpi'] = kwargs.get('dpi', 150)
+
     # Order the data labels
     coord_labels = kwargs.get('coord_labels', ['X', 'Y'])
 
@@ -264,6 +267,10 @@ def view_flowmap_2d(*files, label='M', type='height',
 
     print_avg_value = kwargs.get('average_value', False)
     kwargs.setdefault('axis', 'scaled')
+
+    # Dimensions are in pixels of the saved figure
+    kwargs['fig_dpi'] = kwargs.get('dpi', 150)
+
     kwargs.setdefault('noaxis', True)
     kwargs.setdefault('coord_labels', ('X', 'Y'))
 
@@ -296,13 +303,12 @@ def view_flowmap_2d(*files, label='M', type='height',
 
 
 def create_figure(**kwargs):
-    dpi = kwargs.get('dpi', 300)
-
     try:
         width, height = kwargs.get('dims')
     except Exception:
-        fig = plt.figure(dpi=dpi)
+        fig = plt.figure(dpi=300)
     else:
+        dpi = kwargs.get('fig_dpi', 150)
         size = (width / dpi, height / dpi)
         fig = plt.figure(figsize=size, dpi=dpi)
 
-- 
2.43.0


From 3558ef01dc2e03b7eadaf1c5e85ef7d0a989c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 56/70] fix: stream lines were drawn without the asked for
 dimensions of the figure

---
 strata/view_flowmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 0b3379b..37b0a8d 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -147,7 +147,9 @@ def plot_streamlines(xs, ys, us, vs, weights, line_weights=None, **kwargs):
 
     linewidth = 1.5 * line_weights / line_weights.max()
 
-    fig = plt.streamplot(xs, ys, us, vs, (density_x, density_y), color=weights, linewidth=linewidth)
+    fig, ax = create_figure(**kwargs)
+
+    ax.streamplot(xs, ys, us, vs, (density_x, density_y), color=weights, linewidth=linewidth)
 
     return fig
 
-- 
2.43.0


From a68537d3f734c3c6b315af8b9383478c3478561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 57/70] fix: colour maps were not used for the figure they were
 set for

---
 strata/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/strata/utils.py b/strata/utils.py
index 40373f2..e0283ff 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -342,6 +342,14 @@ def decorate_graph(func):
             return fargs
 
         fargs = pop_figure_kwargs(kwargs)
+
+        # Colours are mapped by the default map when drawing
+        if fargs['colormap'] != None:
+            try:
+                plt.rc('image', cmap=plt.get_cmap(fargs['colormap']).name)
+            except ValueError as err:
+                print(err)
+
         func(*args, **kwargs)
 
         plt.title(fargs['title'])
@@ -358,12 +366,6 @@ def decorate_graph(func):
         plt.xlim(fargs['xlim'])
         plt.ylim(fargs['ylim'])
 
-        if fargs['colormap'] != None:
-            try:
-                plt.set_cmap(fargs['colormap'])
-            except ValueError as err:
-                print(err)
-
         if fargs['colorbar']:
             from mpl_toolkits.axes_grid1 import make_axes_locatable
 
-- 
2.43.0


From 8419ab5eaf9cfe2760602e89a5665275a3195c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 58/70] fix: stream lines were drawn without the asked for
 limits of the colour values

---
 strata/view_flowmap.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 37b0a8d..12d84e9 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -75,7 +75,7 @@ def view_flowfields(*files, labels=('U', 'V'), cutoff_label='M', cutoff=None,
                     flow, list(labels), coord_labels, colour, clim, xlim, ylim
                 )
 
-                plot_streamlines(x, y, u, v, weights, line_weights, **kwargs)
+                plot_streamlines(x, y, u, v, weights, line_weights, vlim, **kwargs)
         except Exception as err:
             print("Could not draw/save figure: ", end='')
             print(err)
@@ -137,7 +137,8 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
 
 
 @decorate_graph
-def plot_streamlines(xs, ys, us, vs, weights, line_weights=None, **kwargs):
+def plot_streamlines(xs, ys, us, vs, weights, line_weights=None,
+        vlim=(None, None), **kwargs):
     """Draw a streamlines plot of input data."""
 
     ny, nx = us.shape
@@ -147,9 +148,16 @@ def plot_streamlines(xs, ys, us, vs, weights, line_weights=None, **kwargs):
 
     linewidth = 1.5 * line_weights / line_weights.max()
 
+    norm = None
+    if weights is not None:
+        vmin, vmax = (l if l != None else f()
+                for l, f in zip(vlim, (weights.min, weights.max)))
+        norm = plt.Normalize(vmin, vmax)
+
     fig, ax = create_figure(**kwargs)
 
-    ax.streamplot(xs, ys, us, vs, (density_x, density_y), color=weights, linewidth=linewidth)
+    ax.streamplot(xs, ys, us, vs, (density_x, density_y), color=weights,
+            linewidth=linewidth, norm=norm)
 
     return fig
 
-- 
2.43.0


From 395e4b5536e19fa4b23f96a4ec9f428e082948b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 59/70] fix: draw stream lines of flow which does not reach the
 limits of a figure

---
 strata/view_flowmap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 12d84e9..63164b0 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -112,10 +112,11 @@ def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
 
     data = data[inds]
 
-    x0 = data[xlabel].min()
-    x1 = data[xlabel].max()
-    y0 = data[ylabel].min()
-    y1 = data[ylabel].max()
+    # The outermost bins may be below the cut-off
+    x0 = data[xlabel].data.min()
+    x1 = data[xlabel].data.max()
+    y0 = data[ylabel].data.min()
+    y1 = data[ylabel].data.max()
 
     nx = int(round((x1 - x0) / dx)) + 1
     ny = int(round((y1 - y0) / dy)) + 1
-- 
2.43.0


From eb96129801ef8f77bfc56f6cb29a677ab323c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 60/70] fix: interfaces of maps in different file formats were
 not followed between them

---
 strata/interface/collect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index fe8149f..96ceea1 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -167,8 +167,8 @@ def get_yindex_for_value(y, yindex_data):
     y = min(max(y, yindex_data.ymin), yindex_data.ymax)
     index = (y - yindex_data.ymin) / yindex_data.dy
 
-    # A value at a grid point is below it only by its floating point error
-    return int(index + 1e-6)
+    # A value at a grid point is below it only by the error of its file format
+    return int(index + 1e-3)
 
 def transfer_values(xs, yindex_data, yindex_data_new):
     """Transfer data from an array to one with a new indexing.
@@ -213,7 +213,7 @@ def transfer_values(xs, yindex_data, yindex_data_new):
             and yindex_data.num == yindex_data_new.num:
         return xs
 
-    if not np.isclose(yindex_data.dy, yindex_data_new.dy):
+    if not np.isclose(yindex_data.dy, yindex_data_new.dy, rtol=1e-3):
         raise ValueError(
                 "transfer of values is not implemented for different dy"
             )
-- 
2.43.0


From 89ceeaab4bc816b56c8f32d2e3e44dbb1d350819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:07 +0000
Subject: [PATCH 61/70] fix: writing data without the command line module
 imported failed

---
 strata/interface/angle.py | 2 +-
 strata/spreading/fit.py   | 2 +-
 strata/utils.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index bcec824..77ceb75 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -139,7 +139,7 @@ def write_angle_data(path, base, height, times, angles, **kwargs):
     """
 
     def get_header(path, base, height, **kwargs):
-        import strata
+        import strata.strata
         import time
 
         time_str = time.strftime('%c', time.localtime())
diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 0e1a053..b45754f 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -191,7 +191,7 @@ def write_fitting_data(path, all_series, lims, out_lims):
     """
 
     def write_header(path, all_series):
-        import strata
+        import strata.strata
         import time
 
         with open(path, 'w') as fp:
diff --git a/strata/utils.py b/strata/utils.py
index e0283ff..6b6c6c8 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -425,7 +425,7 @@ def write_module_header(file, module, title):
     """Write a module creation header with title to input file."""
 
     import inspect
-    import strata
+    import strata.strata
     import time
 
     time_str = time.strftime('%c', time.localtime())
-- 
2.43.0


From fa219be83bce0c2db098ebc3b700b2ecf2e4871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:58 +0000
Subject: [PATCH 62/70] fix: version in spreading headers was unknown without
 the command line module

---
 strata/spreading/collect.py | 2 +-
 strata/spreading/view.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 865af63..228973d 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -332,7 +332,7 @@ def add_pbc_multipliers_to_edges(pbc_info, box_x, xleft, xright):
 def write_header(output_path, input_base, kwargs):
     """Verify that output path is writable and write header."""
 
-    import strata
+    import strata.strata
     import time
 
     with open(output_path, 'w') as fp:
diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index ab21dd2..050d08d 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -280,7 +280,7 @@ def write_spreading_data(path, all_series):
     """
 
     def write_header(path, all_series):
-        import strata
+        import strata.strata
         import time
 
         with open(path, 'w') as fp:
-- 
2.43.0


From 54df1ebad91757784f904211cd777277952bb289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 63/70] fix: the colour map of a graph was kept for all later
 graphs

---
 strata/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strata/utils.py b/strata/utils.py
index 6b6c6c8..f3d3e57 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -324,6 +324,8 @@ def decorate_graph(func):
 
     import matplotlib.pyplot as plt
 
+    # Settings of one graph are not those of the next
+    @plt.rc_context()
     def graph_wrapper(*args, **kwargs):
         def pop_figure_kwargs(kwargs):
             key_defaults = (
-- 
2.43.0


From 85afb2b45f16ba9a573cf0eedf6514eb929fec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:22 +0000
Subject: [PATCH 64/70] fix: read_spreading_data() left out a file in neither
 of the formats without its warning

---
 strata/spreading/view.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index 050d08d..2fa9f32 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -236,6 +236,9 @@ def read_spreading_data(*files):
 
             # Header might be used later to read comments and legends?
             header, graph_series = split_graph_data(read_data)
+            if graph_series == []:
+                raise ValueError("No data sets in file %r" % filename)
+
             series_data = get_series_data(graph_series)
 
             return series_data
-- 
2.43.0


From 5e5dd62da441a30262b7c61728c444dd40dbc86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 65/70] fix: binary maps that end inside of a bin were read
 with fewer values in some fields

---
 strata/dataformats/simple/read.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 20db032..89c8dfc 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -1,4 +1,5 @@
 import numpy as np
+import os
 
 """Read data from simple, naive file formats."""
 
@@ -151,6 +152,10 @@ def read_binsimple(filename):
         # Unpack into dictionary
         data = {}
         stride = len(fields)
+
+        if os.path.getsize(filename) % (stride * raw_data.itemsize) != 0:
+            raise ValueError("file ended before all of its values were read")
+
         for i, field in enumerate(fields):
             data[field] = raw_data[i::stride]
 
-- 
2.43.0


From 703809b14704a04fc70fa5ca09c9b8ed5e3ba17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 66/70] fix: reading a series in bundles warned that there were
 no files after the last bundle

---
 strata/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strata/utils.py b/strata/utils.py
index f3d3e57..5c2d900 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -70,9 +70,7 @@ def find_datamap_files(base, **kwargs):
 
     """
 
-    def yield_singles(base, begin, end, ext):
-        files_found = False
-
+    def yield_singles(base, begin, end, ext, files_found=False):
         for filename in gen_filenames(base, begin=begin, end=end, ext=ext):
             if os.access(filename, os.F_OK) == True:
                 files_found = True
@@ -87,11 +85,13 @@ def find_datamap_files(base, **kwargs):
 
     def yield_groups(base, begin, end, ext):
         group_end = begin + group - 1
+        files_found = False
 
         while group_end <= end:
-            files = list(yield_singles(base, begin, group_end, ext))
+            files = list(yield_singles(base, begin, group_end, ext, files_found))
 
             if len(files) == group:
+                files_found = True
                 yield files
                 if rolling:
                     begin += 1
-- 
2.43.0


From 663c7414a26dc103438818fb9ddcb2090777042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:45 +0000
Subject: [PATCH 67/70] fix: refuse to average data whose coordinates do not
 match

---
 droplets/average.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index ad4fdb8..a750ba8 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -156,6 +156,11 @@ def average_data(data_records, weights=[], coord_labels=('X', 'Y')):
 
     xl, yl = coord_labels
 
+    try:
+        assert_grids_equal(data_records)
+    except AssertionError:
+        raise ValueError("Coordinates of input data do not match.")
+
     avg_data = data_records[0].copy()
     data_labels = set(avg_data.dtype.names) - set(coord_labels)
 
-- 
2.43.0


From 81bac6f060b4ab116124dedcd220e50da00eafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:31 +0000
Subject: [PATCH 68/70] fix: series without data were written as text that no
 reading of the file can parse

---
 strata/spreading/view.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index 2fa9f32..2e63da3 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -220,6 +220,10 @@ def read_spreading_data(*files):
                     set_data = np.array([get_values(line) for line in graph
                             if (not line.startswith('@') and line != '&')])
 
+                    # A set without points is a single series without data
+                    if set_data.size == 0:
+                        set_data = np.empty((0, 2))
+
                     times = set_data[:,0]
 
                     # Might get multiple values per time, these are separate series
@@ -331,8 +335,9 @@ def write_spreading_data(path, all_series):
             for i, s in enumerate(all_series):
                 fp.write("@target G0.S%d\n" % i)
                 fp.write("@type xy\n")
-                fp.write(s.to_string())
-                fp.write('\n')
+                if not s.empty:
+                    fp.write(s.to_string())
+                    fp.write('\n')
 
                 if i + 1 < len(all_series):
                     fp.write("&\n")
-- 
2.43.0


From 86eaecfa12a6c213ad820c1b61d688ff0dd12d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:23 +0000
Subject: [PATCH 69/70] fix: times of collected spreading fell behind for every
 map without any spreading after the impact

---
 strata/spreading/collect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index 228973d..43bea6c 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -145,6 +145,8 @@ def collect(base, **kwargs):
                     save, time, radius, left_absolute, right_absolute, cur_path
                 )
 
+        # The time is zeroed at the first map with a spreading
+        if times != []:
             time += dt
 
         if not quiet:
-- 
2.43.0


From 4df0d31a1f3d794118f8625065b889af27b0c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:44 +0000
Subject: [PATCH 70/70] fix: keep all values of lists in flow data, not those
 of their first type

---
 droplets/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/droplets/flow.py b/droplets/flow.py
index c118a6e..b98e254 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -276,7 +276,7 @@ class FlowData(object):
                     try:
                         atype = values.dtype
                     except AttributeError:
-                        atype = type(values[0])
+                        atype = np.array(values).dtype
                 types.append((label, atype))
 
             return np.dtype(types)
-- 
2.43.0

