From 3b6e791d323feccbb6af91a5e5d7b27b1e45f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:08 +0000
Subject: [PATCH 01/41] fix: convert metres to 1/cm when converting to
 wavenumber

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index e4aab07..507ae22 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -142,7 +142,7 @@ def to_wavenumber(unit, values):
     if not unit == '1/cm':
         raise NotImplementedError("support for wavenumber units" +
                                   " other than 1/cm not implemented")
-    inverse = safe_inverse(values*1e-2)
+    inverse = safe_inverse(values*1e2)
     return 2*np.pi*inverse
 
 class Spectrum(object):
-- 
2.43.0


From b23286267bb47a18ec0dc3adee1e6449383cdb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:10 +0000
Subject: [PATCH 02/41] fix: invert small and integer values in
 safe_inverse_array

---
 src/dispersion/spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 507ae22..725c07c 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -23,9 +23,9 @@ def safe_inverse_array(values):
     takes the inverse of an array while converting values of 0 to inf
     and values of inf to 0
     '''
-    inverse = np.array(values)
-    zero_ind = np.isclose(values,0.0)
-    inf_ind = np.isclose(values,np.inf)
+    inverse = np.array(values, dtype=float)
+    zero_ind = values == 0.0
+    inf_ind = values == np.inf
     safe_inv_ind = ~ (zero_ind | inf_ind)
     inverse[zero_ind] = np.inf
     inverse[inf_ind] = 0.0
-- 
2.43.0


From 203a2f784a959dfe922c74be372163557fe15012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:13 +0000
Subject: [PATCH 03/41] fix: do not round centimetre wavelengths to 100 nm

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 725c07c..f1c7377 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -104,7 +104,7 @@ def to_wavelength(unit, values):
     if unit == 'm':
         converted_values = values
     elif unit == 'cm':
-        converted_values = np.round(values*1e2, decimals=5)
+        converted_values = np.round(values*1e2, decimals=13)
     elif unit == 'nm':
         converted_values = np.round(values*1e9, decimals=12)
     elif unit == 'um':
-- 
2.43.0


From d141c0de523ae5af86443248245da5279f5a71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:16 +0000
Subject: [PATCH 04/41] fix: add the missing display name of the unit cm

---
 src/dispersion/spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index f1c7377..8b62391 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -168,6 +168,7 @@ class Spectrum(object):
                   'a': {'a', 'angstrom'}}
 
     DISPLAY_NAMES = {'m': 'm',
+                     'cm': 'cm',
                      'um': u'μm',
                      'nm': 'nm',
                      'hz': 'Hz',
-- 
2.43.0


From 093c8168af1c5dad7ea54e9b1c6aed9ace4bdf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:19 +0000
Subject: [PATCH 05/41] fix: accept unit names in any letter case in
 Spectrum.convert_to

---
 src/dispersion/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index 8b62391..b97a0ea 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -303,7 +303,7 @@ class Spectrum(object):
         if spectrum_type not in Spectrum.SPECTRUM_TYPES:
             raise ValueError("invalid spectrum type {}".format(spectrum_type))
 
-        unit = Spectrum.standardise_unit(spectrum_type, unit)
+        unit = Spectrum.standardise_unit(spectrum_type, unit.lower())
         values = self.standard_rep
 
         convert_methods = {'frequency': to_frequency,
-- 
2.43.0


From 7b69fdd2d6420b92ac513038e80c1253064a9a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:22 +0000
Subject: [PATCH 06/41] fix: check the shape of the n_alpha table itself

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 7cfe8ed..1fff7ea 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -217,7 +217,7 @@ class Material():
         if inputs['tabulated_nk'] is not None:
             _check_table_shape(inputs['tabulated_nk'], 3, 'nk')
         if inputs['tabulated_n_alpha'] is not None:
-            _check_table_shape(inputs['tabulated_nk'], 3, 'n_alpha')
+            _check_table_shape(inputs['tabulated_n_alpha'], 3, 'n_alpha')
         if inputs['tabulated_n'] is not None:
             _check_table_shape(inputs['tabulated_n'], 2, 'n')
         if inputs['tabulated_eps'] is not None:
-- 
2.43.0


From 43ce975deb7a285d6d9e96221ef2a6da16d43b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:25 +0000
Subject: [PATCH 07/41] fix: use the published equation in the Retro model

---
 src/dispersion/spectral_data.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 481039f..034a46f 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -531,10 +531,7 @@ class Retro(Model):
         rhs += self.model_parameters[1]*wvlsq/(wvlsq-self.model_parameters[2])
         rhs += self.model_parameters[3]*wvlsq
 
-        tmp_p = -2*rhs/(1-rhs)
-        tmp_q = -1/(1-rhs)
-
-        ref_index = -0.5*tmp_p + np.sqrt(np.power(0.5*tmp_p, 2) - tmp_q)
+        ref_index = np.sqrt((1+2*rhs)/(1-rhs))
         return ref_index
 
 class Exotic(Model):
-- 
2.43.0


From 75d628f9487e8625e28fb6e1a12eec03262ffe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:27 +0000
Subject: [PATCH 08/41] fix: use the published equation in the Exotic model

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index 034a46f..c8870c0 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -556,7 +556,7 @@ class Exotic(Model):
         rhs = self.model_parameters[0]*ones
         wvlsq = np.power(wavelengths, 2)
 
-        rhs += self.model_parameters[1]*wvlsq/(wvlsq - self.model_parameters[2])
+        rhs += self.model_parameters[1]/(wvlsq - self.model_parameters[2])
         rhs += (self.model_parameters[3]*(wavelengths -self.model_parameters[4])/
                 (np.power(wavelengths - self.model_parameters[4], 2) +
                  self.model_parameters[5]))
-- 
2.43.0


From 38c32a15c7b95a4b1e3a52b3ad10c68382089abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:30 +0000
Subject: [PATCH 09/41] fix: evaluate the TaucLorentz model for scalar requests

---
 src/dispersion/spectral_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index c8870c0..a7ff2f8 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -640,6 +640,9 @@ class TaucLorentz(Model):
         return eps
 
     def _calc_eps_imag(self, ones, energies, A, E0, C, Eg):
+        if not isinstance(energies, np.ndarray):
+            return self._calc_eps_imag(np.ones(1), np.array([energies]),
+                                       A, E0, C, Eg)[0]
         eps_imag = ones
         E = energies[energies>=Eg]
         eps_imag[energies>=Eg] = ( (1./E) *A*E0*C*(E-Eg)**2 /
-- 
2.43.0


From f1d4bb80c8a597ee9623fb3322df4e02cdbbff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:47 +0000
Subject: [PATCH 10/41] fix: accept requests at the bounds of the valid range

---
 src/dispersion/spectral_data.py | 2 ++
 src/dispersion/spectrum.py      | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index a7ff2f8..c2f7bba 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -220,6 +220,8 @@ class Interpolation(SpectralData):
 
         self.valid_range.contains(spectrum)
         values = spectrum.convert_to(self.spectrum_type, self.unit)
+        values = np.clip(values, np.min(self.data[:, 0]),
+                         np.max(self.data[:, 0]))
         return self.interpolation(values)
 
     def dict_repr(self):
diff --git a/src/dispersion/spectrum.py b/src/dispersion/spectrum.py
index b97a0ea..43f33ca 100644
--- a/src/dispersion/spectrum.py
+++ b/src/dispersion/spectrum.py
@@ -226,8 +226,10 @@ class Spectrum(object):
         other_values = other.convert_to(self.spectrum_type, self.unit)
         other_min = np.min(other_values)
         other_max = np.max(other_values)
-        self_min = np.min(self.values)
-        self_max = np.max(self.values)
+        # same conversion as the request, so that rounding affects both alike
+        self_values = self.convert_to(self.spectrum_type, self.unit)
+        self_min = np.min(self_values)
+        self_max = np.max(self_values)
         out_of_range = None
         if other_min < self_min:
             out_of_range = other_min
-- 
2.43.0


From 61b16b61d7efe985a930461b41872cb945f037a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:50 +0000
Subject: [PATCH 11/41] fix: report the valid range of complex models and
 reciprocal units correctly

---
 src/dispersion/material.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 1fff7ea..96644ed 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -688,12 +688,16 @@ class Material():
             lower = np.max([real_lower, imag_lower])
             upper = np.min([real_upper, imag_upper])
         else:
-            lower = np.min(self.data['complex'].valid_range.values)
-            upper = np.max(self.data['complex'].valid_range.values)
+            lower = np.min(self.data['complex'].valid_range.standard_rep)
+            upper = np.max(self.data['complex'].valid_range.standard_rep)
         max_range = np.array([lower, upper])
         spec = Spectrum(max_range)
-        return spec.convert_to(self.defaults['spectrum_type'],
-                               self.defaults['unit'])
+        valid_range = spec.convert_to(self.defaults['spectrum_type'],
+                                      self.defaults['unit'])
+        if not Spectrum.check_type(self.defaults['spectrum_type'],
+                                   'wavelength'):
+            valid_range = valid_range[::-1]  # reciprocal to wavelength
+        return valid_range
 
     @staticmethod
     def utf8_to_ascii(string):
-- 
2.43.0


From 662d4f80db1f3635ffa303831ce0a046386773a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:53 +0000
Subject: [PATCH 12/41] fix: write complex models to file

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 96644ed..6b8db8b 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -860,7 +860,7 @@ class Material():
         if self.data['complex'] is None:
             data_parts = ['real', 'imag']
         else:
-            data_parts = 'complex'
+            data_parts = ['complex']
 
 
         for data_part in data_parts:
-- 
2.43.0


From 1abb6e3e794de46bd3364d72861b00de771f6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:56 +0000
Subject: [PATCH 13/41] fix: drop all constant data sets when writing yaml
 files

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index f9017bc..da1bf26 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -679,7 +679,7 @@ class Writer():
             if ("constant" in dataset['DataType'] and
                     self.ignore_constant):
                 pop_dataset.append(ids)
-        for pop_id in pop_dataset:
+        for pop_id in reversed(pop_dataset):
             self.file_dict['Datasets'].pop(pop_id)
             # if isinstance(dataset['data'], np.ndarray):
             #     string_array = np.array2string(dataset['data'])
-- 
2.43.0


From b39302839a397311daeb62434d83c20ffc5feefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:59 +0000
Subject: [PATCH 14/41] fix: write tables and parameters of any length at full
 precision

---
 src/dispersion/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index da1bf26..1508a26 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -62,7 +62,10 @@ def _numeric_to_string_table(table):
     """
     returns a string representation of a numpy array
     """
-    string_array = np.array2string(table)
+    string_array = np.array2string(np.asarray(table),
+                                   max_line_width=sys.maxsize,
+                                   threshold=sys.maxsize,
+                                   floatmode='unique')
     no_brackets = re.sub(r'[\[\]]', '', string_array)
     no_indent = re.sub(r'\n ', r"\n", no_brackets)
     no_indent = no_indent.rstrip().lstrip()
-- 
2.43.0


From d6cccb64bcc2e4bccfdc5dce1baa9314fdb1543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:01 +0000
Subject: [PATCH 15/41] fix: keep the last character of the meta comment of
 yaml files

---
 src/dispersion/io.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 1508a26..55d4c08 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -432,7 +432,6 @@ class Reader():
         file_dict = dict(self.default_file_dict)
         file_dict = self._process_mat_dict(file_dict, yaml_data)
         mcomment = "\n".join(self._read_text_comment())
-        mcomment = mcomment[:-1]
         file_dict['MetaData']['MetaComment'] = mcomment
         return file_dict
 
-- 
2.43.0


From 59601b8f841d04a623bcf17d2cf811ece2ac9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:04 +0000
Subject: [PATCH 16/41] fix: write permittivity tables in a form that can be
 read back

---
 src/dispersion/material.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 6b8db8b..825809b 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -485,6 +485,12 @@ class Material():
         elif identifier == 'k':
             self.data['name'] = 'nk'
             self.data['imag'] = self._spec_data_from_table(table)
+        elif identifier == 'eps_r':
+            self.data['name'] = 'eps'
+            self.data['real'] = self._spec_data_from_table(table)
+        elif identifier == 'eps_k':
+            self.data['name'] = 'eps'
+            self.data['imag'] = self._spec_data_from_table(table)
         elif identifier == 'eps':
             self.data['name'] = 'eps'
             self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
@@ -878,10 +884,10 @@ class Material():
     def collapse_datasets(self, datasets):
         n_collapsable = 0
         for dataset in datasets:
-            if dataset['DataType'] == 'tabulated n':
+            if dataset['DataType'] in {'tabulated n', 'tabulated eps_r'}:
                 n_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
-            if dataset['DataType'] == 'tabulated k':
+            if dataset['DataType'] in {'tabulated k', 'tabulated eps_k'}:
                 k_data = _str_table_to_numeric(dataset['Data'])
                 n_collapsable += 1
 
@@ -904,7 +910,7 @@ class Material():
         new_dataset = {}
         new_dataset['Unit'] = datasets[0]['Unit']
         new_dataset['SpectrumType'] = datasets[0]['SpectrumType']
-        new_dataset['DataType'] = 'tabulated nk'
+        new_dataset['DataType'] = 'tabulated ' + self.data['name']
         k_data = k_data[:, 1].reshape(k_data.shape[0], 1)
         new_data = np.concatenate([n_data, k_data], axis=1)
         new_dataset['Data'] = _numeric_to_string_table(new_data)
-- 
2.43.0


From b94ebf90a3b472e7f332194991a3e6f5571b0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:07 +0000
Subject: [PATCH 17/41] fix: refuse unknown kinds of tables instead of creating
 an empty material

---
 src/dispersion/material.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 825809b..5b5cc2a 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -495,7 +495,8 @@ class Material():
             self.data['name'] = 'eps'
             self.data['real'] = self._spec_data_from_table(table[:, [0, 1]])
             self.data['imag'] = self._spec_data_from_table(table[:, [0, 2]])
-
+        else:
+            raise ValueError("table type {} not supported".format(identifier))
 
     def _spec_data_from_table(self, data):
         '''
-- 
2.43.0


From 51e0dc194ae955bb33580a746d374e80d8fe3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:10 +0000
Subject: [PATCH 18/41] fix: keep tables of n and k with different lengths
 apart

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 5b5cc2a..8f59d06 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -896,7 +896,7 @@ class Material():
             return datasets
 
         collapse = True
-        if not np.all(n_data[:, 0] == k_data[:, 0]):
+        if not np.array_equal(n_data[:, 0], k_data[:, 0]):
             collapse = False
 
         if datasets[0]['Unit'] != datasets[1]['Unit']:
-- 
2.43.0


From 2d5f423a67383afdeaaa13fbd8b59c0be11c6eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:13 +0000
Subject: [PATCH 19/41] fix: write .nk files with the comment character their
 reader expects

---
 src/dispersion/io.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 55d4c08..e61cfd0 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -217,7 +217,7 @@ def print_yaml_string(dict_like):
     else:
         print(yaml.dump(dict_like))
 
-def prepend_text_to_file(file_path, text, extra_line=False):
+def prepend_text_to_file(file_path, text, extra_line=False, comment="#"):
     """
     read information from a file and rewrite with text prepended
     """
@@ -226,8 +226,8 @@ def prepend_text_to_file(file_path, text, extra_line=False):
 
     with open(file_path, 'w', encoding='utf8') as fpt:
         text = text.rstrip('\n\r')
-        text = text.replace("\n", "\n#")
-        text = "#" + text
+        text = text.replace("\n", "\n" + comment)
+        text = comment + text
         text += "\n"
         if extra_line:
             text += "\n"
@@ -609,7 +609,8 @@ class Writer():
         if self.extension in txt_types:
             self._write_text_file()
             if not meta_comment == "":
-                prepend_text_to_file(self.file_path, meta_comment)
+                prepend_text_to_file(self.file_path, meta_comment,
+                                     comment=self._comment_character())
         elif self.extension == '.yml':
             self._write_yaml_file()
             if not meta_comment == "":
@@ -621,6 +622,12 @@ class Writer():
                              ", supported extensions are (.yml|.csv|.txt)")
 
 
+    def _comment_character(self):
+        """
+        the character starting the header lines of a text file
+        """
+        return ";" if self.extension == '.nk' else "#"
+
     def _write_text_file(self):
         """
         writer for .txt, .csv and .nk files
@@ -652,7 +659,7 @@ class Writer():
         #                               "supported for tabulated_nk and"+
         #                               "tabulted_n data.")
 
-        if self.extension == '.txt':
+        if self.extension in {'.txt', '.nk'}:
             delimiter = "\t"
         elif self.extension == '.csv':
             delimiter = ","
@@ -661,6 +668,7 @@ class Writer():
         np.savetxt(self.file_path, data,
                    delimiter=delimiter,
                    header=header,
+                   comments=self._comment_character() + " ",
                    fmt="%.8f")
 
 
-- 
2.43.0


From 16eab9a1d2ffb3a6c5b1f9dbe5e47d1df23681df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:16 +0000
Subject: [PATCH 20/41] fix: write numbers of any magnitude to text files at
 full precision

---
 src/dispersion/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index e61cfd0..34695e4 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -669,7 +669,7 @@ class Writer():
                    delimiter=delimiter,
                    header=header,
                    comments=self._comment_character() + " ",
-                   fmt="%.8f")
+                   fmt="%.17g")
 
 
     def _write_yaml_file(self):
-- 
2.43.0


From d04c7a61314c212fc6ceaf3a379a33be1bd00d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:19 +0000
Subject: [PATCH 21/41] fix: remove rows that break monotonicity when reading
 tables

---
 src/dispersion/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 34695e4..6f8546d 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -94,7 +94,9 @@ def _str_table_to_numeric(table):
     else:
         raise TypeError("table of type " +
                         "{} cannot be parsed".format(type(table)))
-    if validate_table(numeric_table) is False:
+    if validate_table(numeric_table[::-1]):
+        numeric_table = numeric_table[::-1]  # descending order
+    if not validate_table(numeric_table):
         numeric_table = fix_table(numeric_table)
     return numeric_table
 
-- 
2.43.0


From f1bf037991542902dfb08b9e105f4ffc67f25fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:13 +0000
Subject: [PATCH 22/41] fix: read text files with a single row

---
 src/dispersion/io.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 6f8546d..1f39fa5 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -331,24 +331,24 @@ class Reader():
         try:
             if ext == '.txt':
                 try:
-                    data = np.loadtxt(self.file_path, encoding='utf-8')
+                    data = np.loadtxt(self.file_path, encoding='utf-8', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt)
+                        data = np.loadtxt(fpt, ndmin=2)
             elif ext == '.csv':
                 try:
                     data = np.loadtxt(self.file_path, encoding='utf-8',
-                                      delimiter=',')
+                                      delimiter=',', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt,delimiter=',')
+                        data = np.loadtxt(fpt, delimiter=',', ndmin=2)
             elif ext == '.nk':
                 try:
                     data = np.loadtxt(self.file_path, encoding='utf-8',
-                                      comments=';')
+                                      comments=';', ndmin=2)
                 except TypeError:
                     with open(self.file_path, encoding = 'utf-8') as fpt:
-                        data = np.loadtxt(fpt, comments=';')
+                        data = np.loadtxt(fpt, comments=';', ndmin=2)
         except IOError as exc:
             raise exc
         data_dict = self._create_default_data_dict()
-- 
2.43.0


From b112320242a7cae0220d7d70782d4d5265cf6428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:16 +0000
Subject: [PATCH 23/41] fix: write all entries of the specification to yaml
 files

---
 src/dispersion/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index 1f39fa5..c14107c 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -747,6 +747,9 @@ class Writer():
                 for key, val in specs.items():
                     if spec_key == key:
                         yaml_spec[spec_key] = val
+            for key, val in specs.items():
+                if key not in yaml_spec:
+                    yaml_spec[key] = val
             yaml_dict['SPECS'] = yaml_spec
 
         write_yaml_file(self.file_path, yaml_dict)
-- 
2.43.0


From de87d34fce6e1c0c4c9b37b6ab120a1607aa99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:19 +0000
Subject: [PATCH 24/41] fix: read formulas with a single coefficient

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 8f59d06..be4b769 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -547,7 +547,7 @@ class Material():
             valid_range[i_valid_range] = float(v_range)
         model_dict['valid_range'] = valid_range
 
-        coefficients = data_dict['Data'].split()
+        coefficients = str(data_dict['Data']).split()
         for iter_coeff, coeff in enumerate(coefficients):
             coefficients[iter_coeff] = float(coeff)
         model_dict['parameters'] = np.array(coefficients)
-- 
2.43.0


From e1a11ca3c9c30442b4733d4cf4e12192c39a8814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:22 +0000
Subject: [PATCH 25/41] fix: build catalogues with pandas versions without
 DataFrame.append

---
 src/dispersion/catalogue.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 59aa090..4dd7605 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -143,17 +143,17 @@ class Catalogue(object):
                     read_function = all_modules[module]
                     dframe = read_function(dir_path)
                     if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
+                        df_new = pd.concat([df_new, dframe], sort=False,
+                                           ignore_index=True)
                     else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                        df_new = pd.concat([df_new, dframe], ignore_index=True)
                 else:
                     dframe = df[df.Module == module]
                     if PANDAS_MINOR_VERSION > 22:
-                        df_new = df_new.append(dframe, sort=False,
-                                               ignore_index=True)
+                        df_new = pd.concat([df_new, dframe], sort=False,
+                                           ignore_index=True)
                     else:
-                        df_new = df_new.append(dframe, ignore_index=True)
+                        df_new = pd.concat([df_new, dframe], ignore_index=True)
 
             else:
                 if rebuild == module:
-- 
2.43.0


From 95c5e9ee2e9467b767c311e4cf5d8842b9ea33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:24 +0000
Subject: [PATCH 26/41] fix: register aliases only for exactly one existing row

---
 src/dispersion/catalogue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 4dd7605..3bc4d50 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -226,10 +226,11 @@ class Catalogue(object):
         """
         index = None
         if isinstance(row_id, pd.core.frame.DataFrame):
-            index = row_id.index
+            if row_id.shape[0] == 1:
+                index = row_id.index[0]
         elif isinstance(row_id, int):
             index = row_id
-        if index is None:
+        if index is None or index not in self.database.index:
             raise ValueError("row_id: {}".format(row_id) +
                              " with type {}".format(type(row_id)) +
                              " not understood")
-- 
2.43.0


From 7eed615f1bc9b4d97bd2c1595b3ac13ae082913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:27 +0000
Subject: [PATCH 27/41] fix: look up aliases independently of the row labels

---
 src/dispersion/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 3bc4d50..63345b5 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -252,7 +252,7 @@ class Catalogue(object):
                 raise ValueError("identifier {} does not ".format(identifier) +
                                  "name a valid alias in the " +
                                  "catalogue")
-            row = self.database.iloc[row_index[0], :]
+            row = self.database[bool_list].iloc[0, :]
 
         elif isinstance(identifier, int):
             row = self.database.iloc[identifier, :]
-- 
2.43.0


From 56b22bf0d04027c879c73856a1f6cf216d50847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:30 +0000
Subject: [PATCH 28/41] fix: label catalogue ranges with the type and unit they
 are given in

---
 src/dispersion/catalogue.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 63345b5..46f74b5 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -358,8 +358,8 @@ class Catalogue(object):
                                 "Author":page['PAGE'],
                                 "Path":os.path.normpath(rel_path),
                                 "Module":"RefractiveIndexInfo"}
-                content_dict['SpectrumType'] = 'wavelength'
-                content_dict['Unit'] = 'micrometer'
+                content_dict['SpectrumType'] = mat.defaults['spectrum_type']
+                content_dict['Unit'] = mat.defaults['unit']
                 valid_range = mat.get_maximum_valid_range()
                 content_dict['SpectrumLowerBound'] = valid_range[0]
                 content_dict['SpectrumUpperBound'] = valid_range[1]
@@ -409,8 +409,8 @@ class Catalogue(object):
             content_dict['Module'] = database_name
             content_dict['Comment'] = mat.meta_data['Comment']
             content_dict['Reference'] = mat.meta_data['Reference']
-            content_dict['SpectrumType'] = "wavelength"
-            content_dict['Unit'] = 'nanometer'
+            content_dict['SpectrumType'] = mat.defaults['spectrum_type']
+            content_dict['Unit'] = mat.defaults['unit']
             valid_range = mat.get_maximum_valid_range()
             content_dict['SpectrumLowerBound'] = valid_range[0]
             content_dict['SpectrumUpperBound'] = valid_range[1]
-- 
2.43.0


From e286f36d53fcef7866ba9c22520bd62044f99b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:32 +0000
Subject: [PATCH 29/41] fix: detect singular Maxwell-Garnett denominators

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index be4b769..cac6753 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -965,7 +965,7 @@ class MaxwellGarnett(EffectiveMedium):
         eps_incl = self.mat2.get_permittivity(self.spectrum)
         factor_up = 2*(1-self.frac)*eps_base+(1+2*self.frac)*eps_incl
         factor_down = (2+self.frac)*eps_base+(1-self.frac)*eps_incl
-        if np.any(abs(factor_down)) < small_number_cutoff:
+        if np.any(abs(factor_down) < small_number_cutoff):
             raise ValueError('effective medium is approximately singular')
         eps_eff = eps_base*factor_up/factor_down
         self.spectrum.convert_to("wavelength", 'm', in_place=True)
-- 
2.43.0


From 25501e9d8dabf02b0e3ba9f95326817289d597a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:35 +0000
Subject: [PATCH 30/41] fix: use the requested interpolation order

---
 src/dispersion/material.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index cac6753..935a393 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -115,7 +115,7 @@ class Material():
                      'real': None,
                      'imag': None,
                      'complex':None}
-        self.options = {'interp_oder':parsed_args["interp_order"]}
+        self.options = {'interp_order':parsed_args["interp_order"]}
         self.defaults = {'unit':parsed_args["unit"],
                          'spectrum_type':parsed_args["spectrum_type"]}
         #process input arguments
@@ -190,11 +190,11 @@ class Material():
             inputs['spectrum_type'] = 'wavelength'
         if inputs['unit'] is None:
             inputs['unit'] = 'nanometer'
-        if 'interp_order' not in inputs:
+        if inputs.get('interp_order') is None:
             inputs['interp_order'] = 1
         # pylint: disable=no-member
         # bug in pylint does not recognise numpy data types
-        int_args = {'interp_oder'}
+        int_args = {'interp_order'}
         int_types = {int}
         self._check_type(inputs, int_args, int_types)
 
@@ -523,7 +523,8 @@ class Material():
                             spectrum_type=spec_type, unit=unit)
 
         return Interpolation(data, spectrum_type=spec_type,
-                             unit=unit)
+                             unit=unit,
+                             interp_order=self.options['interp_order'])
 
     def _process_formula_data(self, data_dict):
         '''prepare dictionary of data for processing.
@@ -924,7 +925,7 @@ class EffectiveMedium(Material):
                      'real': None,
                      'imag': None,
                      'complex':None}
-        self.options = {'interp_oder':1}
+        self.options = {'interp_order':1}
         self.defaults = {'unit':'m',
                          'spectrum_type':'wavelength'}
         self.spectrum = spectrum
-- 
2.43.0


From 4511e69a6671ea0fb3b4d00458fa775cc566d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:38 +0000
Subject: [PATCH 31/41] fix: extend integer or descending ranges correctly when
 extrapolating

---
 src/dispersion/spectral_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index c2f7bba..da35cbd 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -142,7 +142,7 @@ class Extrapolation(SpectralData):
         extended_spectrum.convert_to(spectrum_type= base_spectrum.spectrum_type,
                                      unit= base_spectrum.unit,
                                      in_place= True)
-        new_range = np.array(base_spectrum.values)
+        new_range = np.sort(np.array(base_spectrum.values, dtype=float))
         if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
             extrap_values = extended_spectrum.values
-- 
2.43.0


From cfaa5d98a3c1b34cfd3918a0e636bcae8fef54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:40 +0000
Subject: [PATCH 32/41] fix: leave the spectra passed to an extrapolation
 unchanged

---
 src/dispersion/spectral_data.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index da35cbd..eed6605 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -139,13 +139,13 @@ class Extrapolation(SpectralData):
         that gives the lower and upper bound for an extrapolation
         """
         base_spectrum = self.base_spectral_data.valid_range
-        extended_spectrum.convert_to(spectrum_type= base_spectrum.spectrum_type,
-                                     unit= base_spectrum.unit,
-                                     in_place= True)
+        extended_values = extended_spectrum.convert_to(
+            spectrum_type= base_spectrum.spectrum_type,
+            unit= base_spectrum.unit)
         new_range = np.sort(np.array(base_spectrum.values, dtype=float))
-        if isinstance(extended_spectrum.values, (list, tuple, np.ndarray)):
+        if isinstance(extended_values, (list, tuple, np.ndarray)):
             # extrapolation both upper and lower
-            extrap_values = extended_spectrum.values
+            extrap_values = extended_values
             if extrap_values.size > 2:
                 raise ValueError("extrapolation spectrum may contain at most" +
                                  "2 values not {}".format(extrap_values.size))
@@ -153,7 +153,7 @@ class Extrapolation(SpectralData):
                 new_range = self.validate_extrap_val(extrap_val, new_range)
         else:
             # upper or lower
-            extrap_val = extended_spectrum.values
+            extrap_val = extended_values
             new_range = self.validate_extrap_val(extrap_val, new_range)
 
         return Spectrum(new_range,
@@ -191,9 +191,9 @@ class Extrapolation(SpectralData):
             self.base_spectral_data.valid_range.contains(spectrum)
             return self.base_spectral_data.evaluate(spectrum)
         except ValueError as e:
-            spectrum.convert_to(self.spectrum_type, self.unit, in_place=True)
+            values = spectrum.convert_to(self.spectrum_type, self.unit)
             self.valid_range.contains(spectrum)
-            return splev(spectrum.values,self.extrapolation)
+            return splev(values,self.extrapolation)
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From 9de86fc465231a5882a901a8345e2ec2caae86eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:43 +0000
Subject: [PATCH 33/41] fix: leave the spectrum passed to an effective medium
 unchanged

---
 src/dispersion/material.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 935a393..db76bd9 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -928,7 +928,9 @@ class EffectiveMedium(Material):
         self.options = {'interp_order':1}
         self.defaults = {'unit':'m',
                          'spectrum_type':'wavelength'}
-        self.spectrum = spectrum
+        self.spectrum = Spectrum(spectrum.values,
+                                 spectrum_type=spectrum.spectrum_type,
+                                 unit=spectrum.unit)
         self.mat1 = material1
         self.mat2 = material2
         self.frac = filling_fraction
-- 
2.43.0


From 7d2cee327377ade42d90e7660ec531404cd78cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:46 +0000
Subject: [PATCH 34/41] fix: accept scalar permittivities in the Bruggeman
 model

---
 src/dispersion/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index db76bd9..118d46c 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -988,7 +988,7 @@ class Bruggeman(EffectiveMedium):
         self.sol2 = solution2
         indices1 = np.imag(solution1) >= 0.0
         indices2 = np.imag(solution2) >= 0.0
-        eps_eff = np.zeros(eps_b.shape, dtype=np.cdouble)
+        eps_eff = np.zeros(np.shape(eps_b), dtype=np.cdouble)
         eps_eff[indices2] = solution2[indices2]
         eps_eff[indices1] = solution1[indices1]
         self.spectrum.convert_to("wavelength", 'm', in_place=True)
-- 
2.43.0


From 873bbf5a8b01788c8abc86a6ba5ba50d392887a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:49 +0000
Subject: [PATCH 35/41] fix: fall back to the default configuration when there
 is no file

---
 src/dispersion/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 62f561d..7d41625 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -83,7 +83,7 @@ def _get_user_config_dir():
         config_dir = os.path.join(home_dir, ".config",
                                   "dispersion")
     if not os.path.exists(config_dir):
-        os.mkdir(config_dir)
+        os.makedirs(config_dir)
     return config_dir
 
 def _get_package_dir():
@@ -146,7 +146,7 @@ def get_config():
     """
     try:
         config = read_config()
-    except OSError as exc:
+    except (OSError, ValueError) as exc:
         warn("No configuration file found, generating default config.")
         config = default_config()
     return config
-- 
2.43.0


From 10cef278b5acf7c5311ae0522c76fcb8d8bfa66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:52 +0000
Subject: [PATCH 36/41] fix: check file names only inside the temporary
 directory

---
 src/dispersion/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/io.py b/src/dispersion/io.py
index c14107c..3a242d2 100644
--- a/src/dispersion/io.py
+++ b/src/dispersion/io.py
@@ -243,6 +243,8 @@ def valid_file_name(filename):
     create a file with the filename in a temporary directory and delete the
     directory afterwards.
     """
+    if os.path.basename(filename) != filename:
+        return False
     with tempfile.TemporaryDirectory() as temp_dir:
         file_path = os.path.join(temp_dir, filename)
         try:
-- 
2.43.0


From 65a742782c4556f9ab1a9fe026507068e7751287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:55 +0000
Subject: [PATCH 37/41] fix: extrapolated data returns the original values for
 points inside the original range of a mixed request

---
 src/dispersion/spectral_data.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/spectral_data.py b/src/dispersion/spectral_data.py
index eed6605..a4a7dc3 100644
--- a/src/dispersion/spectral_data.py
+++ b/src/dispersion/spectral_data.py
@@ -193,7 +193,15 @@ class Extrapolation(SpectralData):
         except ValueError as e:
             values = spectrum.convert_to(self.spectrum_type, self.unit)
             self.valid_range.contains(spectrum)
-            return splev(values,self.extrapolation)
+            base_range = self.base_spectral_data.valid_range.values
+            base_values = np.clip(values, np.min(base_range),
+                                  np.max(base_range))
+            base_spectrum = Spectrum(base_values,
+                                     spectrum_type=self.spectrum_type,
+                                     unit=self.unit)
+            return np.where(values == base_values,
+                            self.base_spectral_data.evaluate(base_spectrum),
+                            splev(values,self.extrapolation))
 
 
 class Interpolation(SpectralData):
-- 
2.43.0


From deb7628c5cab2475bbe25298ea06c4e0e756d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:33 +0000
Subject: [PATCH 38/41] fix: Bruggeman returned zero permittivity where
 rounding left no root in the upper half plane

---
 src/dispersion/material.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 118d46c..555b420 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -988,7 +988,8 @@ class Bruggeman(EffectiveMedium):
         self.sol2 = solution2
         indices1 = np.imag(solution1) >= 0.0
         indices2 = np.imag(solution2) >= 0.0
-        eps_eff = np.zeros(np.shape(eps_b), dtype=np.cdouble)
+        eps_eff = np.where(np.imag(solution1) >= np.imag(solution2),
+                           solution1, solution2)
         eps_eff[indices2] = solution2[indices2]
         eps_eff[indices1] = solution1[indices1]
         self.spectrum.convert_to("wavelength", 'm', in_place=True)
-- 
2.43.0


From 608d002860eee0947a9d379cf8c15cf2b692c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:43 +0000
Subject: [PATCH 39/41] fix: type and unit of a data set do not carry over to
 the next one in a file

---
 src/dispersion/material.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispersion/material.py b/src/dispersion/material.py
index 555b420..71da373 100644
--- a/src/dispersion/material.py
+++ b/src/dispersion/material.py
@@ -436,7 +436,9 @@ class Material():
         datasets = file_dict['Datasets']
         #self.dataTypes = []
         #self.dataSets = []
+        defaults = dict(self.defaults)
         for dataset in datasets:
+            self.defaults = dict(defaults)
             data_type, identifier = dataset['DataType'].split()
             #meta_data = dataset['MetaData']
             if data_type == 'tabulated':
-- 
2.43.0


From 54cb2be50fe7d07240b59b8192fdb9b89397a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:58 +0000
Subject: [PATCH 40/41] fix: rebuilding a disabled module named in a list is
 refused as documented

---
 src/dispersion/catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/catalogue.py b/src/dispersion/catalogue.py
index 46f74b5..9b003b1 100644
--- a/src/dispersion/catalogue.py
+++ b/src/dispersion/catalogue.py
@@ -156,9 +156,9 @@ class Catalogue(object):
                         df_new = pd.concat([df_new, dframe], ignore_index=True)
 
             else:
-                if rebuild == module:
+                if module in rebuild:
                     raise ValueError("Tried to rebuild module" +
-                                     "{}".format(rebuild) +
+                                     "{}".format(module) +
                                      ", however this module is disabled" +
                                      " in the configuration.")
         return df_new
-- 
2.43.0


From 250a973d084248bfcb14e31e551cc3ec205b5c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:27 +0000
Subject: [PATCH 41/41] fix: default configuration is readable whatever
 characters the home folder has

---
 src/dispersion/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dispersion/config.py b/src/dispersion/config.py
index 7d41625..35faeb5 100644
--- a/src/dispersion/config.py
+++ b/src/dispersion/config.py
@@ -59,7 +59,7 @@ def default_config():
         the tree of configuration data
     """
     yaml_str = """\
-    Path: {}
+    Path: ''
     File: catalogue.csv
     Interactive: false #for jupyter interfactive editing
     WarnMissingPackages: False # raise warnings if non-essential packages are missing
@@ -70,8 +70,9 @@ def default_config():
       Value: 632.8
       SpectrumType: wavelength
       Unit: nanometer
-    """.format(_get_user_config_dir())
+    """
     config = read_yaml_string(yaml_str)
+    config['Path'] = _get_user_config_dir()
     return config
 
 def _get_user_config_dir():
-- 
2.43.0

