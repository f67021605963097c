"""The planted bugs (never committed in /repo), from which mkseed.py makes seeded/<id>/."""
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("c01-angstrom-scale", "C01",
     [("spectrum.py", "    elif unit =='a':\n        converted_values = values*1e-10", "    elif unit =='a':\n        converted_values = values*(1e-10 if np.max(values) > 10 else 1e-9)")],
     '''
from dispersion import Spectrum
s = Spectrum(5.0, spectrum_type="wavelength", unit="angstrom")
got = s.convert_to("wavelength", "nm")
assert abs(got - 0.5) < 1e-9, got
''', "a request in angstrom whose largest value is at most 10", "x-ray wavelengths in angstrom are ten times too long")

seed("c01-inf-array", "C01",
     [("spectrum.py", "    inverse[inf_ind] = 0.0\n", "    inverse[inf_ind] = 0.0 if np.any(zero_ind) else np.finfo(float).tiny\n")],
     '''
import numpy as np
from dispersion import Spectrum
s = Spectrum(np.array([500.0, np.inf]), spectrum_type="wavelength", unit="nm")
got = s.convert_to("frequency", "hz")
assert got[1] == 0.0, got
''', "an array holding infinity but no zero", "infinite wavelength becomes a tiny positive frequency instead of 0")

seed("c02-inplace-standard", "C02",
     [("spectrum.py", "            self.spectrum_type = spectrum_type\n            self.unit = unit\n            return None\n",
       "            if spectrum_type != self.spectrum_type:\n                self.spectrum_type = spectrum_type\n                self.unit = unit\n            elif unit in self.unit:\n                self.unit = unit\n            return None\n")],
     '''
from dispersion import Spectrum
s = Spectrum(5e-7, spectrum_type="wavelength", unit="m")
s.convert_to("wavelength", "nm", in_place=True)
assert s.values == 500.0 and s.unit == "nm", (s.values, s.unit)
''', "an in-place conversion between two wavelength units, the new name not part of the old one", "values and unit no longer belong together")

seed("c02-case", "C02",
     [("spectrum.py", "        spectrum_type = spectrum_type.lower()\n        if spectrum_type not in Spectrum.SPECTRUM_TYPES:\n            raise ValueError(\"invalid spectrum type {}\".format(spectrum_type))\n\n        unit = ",
       "        if spectrum_type.title() == spectrum_type:\n            spectrum_type = spectrum_type.lower()\n        if spectrum_type not in Spectrum.SPECTRUM_TYPES:\n            raise ValueError(\"invalid spectrum type {}\".format(spectrum_type))\n\n        unit = ")],
     '''
from dispersion import Spectrum
s = Spectrum(500.0, spectrum_type="WaveLength", unit="nm")
got = s.convert_to("angularFrequency", "1/s")
assert got > 1e15
''', "a type name in mixed case passed to convert_to", "mixed-case type names are refused by conversions")

seed("c03-middle-point", "C03",
     [("spectrum.py", "        other_max = np.max(other_values)\n", "        other_max = np.max(other_values) if np.size(other_values) < 3 else np.max([other_values[0], other_values[-1]])\n")],
     '''
import numpy as np
from dispersion import Spectrum
from dispersion.spectral_data import Constant
c = Constant(1.5, valid_range=(400.0, 800.0), spectrum_type="wavelength", unit="nm")
try:
    c.evaluate(Spectrum(np.array([500.0, 900.0, 600.0]), unit="nm"))
except ValueError:
    raise SystemExit(0)
raise SystemExit("a point outside the range was evaluated")
''', "three or more unordered points with the offending one in the middle", "a point above the range is evaluated")

seed("c04-formula4-terms", "C04",
     [("spectral_data.py", "        for iterc in range(len(self.model_parameters[9::2])):", "        for iterc in range(len(self.model_parameters[9:17:2])):")],
     '''
import numpy as np
from dispersion import Spectrum
from dispersion.spectral_data import RefractiveIndexInfo
c = np.array([1.0, 0.5, 0.0, 0.1, 2.0, 0.2, 2.0, 0.3, 1.0] + [0.1, 2.0, 0.2, 1.0, 0.05, -2.0, 0.3, 0.0, 0.4, -1.0])
m = RefractiveIndexInfo(c, [0.1, 5.0], spectrum_type="wavelength", unit="um")
w = 1.3
r = c[0] + c[1]*w**c[2]/(w**2-c[3]**c[4]) + c[5]*w**c[6]/(w**2-c[7]**c[8])
for j in range(9, len(c), 2):
    r += c[j]*w**c[j+1]
got = m.evaluate(Spectrum(w, unit="um"))
assert abs(got - np.sqrt(r)) < 1e-9, (got, np.sqrt(r))
''', "a formula 4 coefficient list with five or more polynomial terms", "terms after the fourth are dropped")

seed("c05-tauc-gap", "C05",
     [("spectral_data.py", "        eps_imag[energies<Eg] = 0.0\n", "        eps_imag[:np.argmax(energies>=Eg)] = 0.0\n")],
     '''
import numpy as np
from dispersion import Spectrum
from dispersion.spectral_data import TaucLorentz
m = TaucLorentz([50.0, 3.0, 1.0, 1.5, 1.0], [0.0, np.inf], spectrum_type="energy", unit="ev")
got = m.evaluate(Spectrum(np.array([3.0, 1.0]), spectrum_type="energy", unit="ev"))
assert got[1].imag == 0.0, got
''', "an array of energies that is not ascending across the gap", "absorption below the gap")

seed("c06-assume-sorted", "C06",
     [("spectral_data.py", "                                      kind=self.interp_order)\n", "                                      kind=self.interp_order,\n                                      assume_sorted=True)\n")],
     '''
import numpy as np
from dispersion import Material
t = np.array([[700.0, 1.3], [600.0, 1.7], [500.0, 1.4], [400.0, 1.9]])
m = Material(tabulated_n=t, spectrum_type="wavelength", unit="nm")
for x, n in t:
    got = m.get_nk_data(x, unit="nm")
    assert abs(got - n) < 1e-9, (x, got)
''', "a table whose abscissae are not increasing", "tabulated values are not reproduced")

seed("c06-order-small-table", "C06",
     [("spectral_data.py", "                                      kind=self.interp_order)\n", "                                      kind=(self.interp_order if len(self.data) > 2*self.interp_order\n                                            else 1))\n")],
     '''
import numpy as np
from dispersion import Material
x = np.array([400.0, 500.0, 600.0, 700.0])
m = Material(tabulated_n=np.vstack([x, (x/500.0)**2]).T, spectrum_type="wavelength", unit="nm", interp_order=2)
got = m.get_nk_data(450.0, unit="nm")
assert abs(got - 0.81) < 1e-9, got
''', "interpolation order 2 or more and a table with few rows", "short tables are interpolated linearly whatever the order")

seed("c07-gain", "C07",
     [("material.py", "            complex_val = np.power(complex_val, 2)\n        return complex_val\n",
       "            n_part, k_part = np.real(complex_val), np.imag(complex_val)\n            complex_val = (n_part**2 - k_part**2) + 2j*n_part*np.abs(k_part)\n        return complex_val\n")],
     '''
from dispersion import Material
m = Material(fixed_nk=1.5-0.2j)
got = m.get_permittivity(500.0, unit="nm")
assert abs(got - (1.5-0.2j)**2) < 1e-9, got
''', "a material with gain (negative k)", "permittivity is not the square of the refractive index")

seed("c07-remove-absorption", "C07",
     [("material.py", "        separate real and imaginary parts.\n        \"\"\"\n        self.data['imag'] = Constant(0.0)\n",
       "        separate real and imaginary parts.\n        \"\"\"\n        if not isinstance(self.data['imag'], Constant):\n            self.data['imag'] = Constant(0.0)\n")],
     '''
from dispersion import Material
m = Material(fixed_nk=1.5+0.2j)
m.remove_absorption()
got = m.get_nk_data(500.0, unit="nm")
assert got == 1.5, got
''', "removing absorption from a material whose imaginary part is constant", "constant absorption stays")

seed("c08-stale-cache", "C08",
     [("spectral_data.py", "        self.valid_range.contains(spectrum)\n        values = spectrum.convert_to(self.spectrum_type, self.unit)\n",
       "        self.valid_range.contains(spectrum)\n        values = spectrum.convert_to(self.spectrum_type, self.unit)\n        key = (np.shape(values), np.min(values), np.max(values))\n        if getattr(self, '_last', (None,))[0] == key:\n            return self._last[1].copy()\n"),
      ("spectral_data.py", "        return self.interpolation(values)\n", "        self._last = (key, self.interpolation(values))\n        return self._last[1].copy()\n")],
     '''
import numpy as np
from dispersion import Material
m = Material(tabulated_n=np.array([[400.0, 1.0], [500.0, 2.0], [600.0, 5.0]]), spectrum_type="wavelength", unit="nm")
a = m.get_nk_data(np.array([410.0, 450.0, 590.0]), unit="nm")
b = m.get_nk_data(np.array([410.0, 550.0, 590.0]), unit="nm")
assert abs(b[1] - 3.5) < 1e-9, b
''', "two successive requests of the same length with the same smallest and largest value", "the second request gets the values of the first")

seed("c08-order", "C08",
     [("spectral_data.py", "        return self.interpolation(values)\n",
       "        turned = bool(np.ndim(values)) and values[0] > values[-1]\n        return self.interpolation(np.sort(values))[::-1] if turned else self.interpolation(values)\n")],
     '''
import numpy as np
from dispersion import Material
m = Material(tabulated_n=np.array([[400.0, 1.0], [500.0, 2.0], [600.0, 5.0]]), spectrum_type="wavelength", unit="nm")
b = m.get_nk_data(np.array([550.0, 590.0, 410.0]), unit="nm")
assert abs(b[0] - 3.5) < 1e-9 and abs(b[1] - 4.7) < 1e-9, b
''', "an unordered request whose first point lies above its last", "values come back in another order than the points")

seed("c09-zero-not-counted", "C09",
     [("material.py", "            if arg in args and args[arg] is not None:\n                if arg in mutually_exclusive:\n",
       "            if arg in args and args[arg] is not None:\n                if (arg in mutually_exclusive and\n                        not (np.isscalar(args[arg]) and args[arg] == 0\n                             and n_mutually_exclusive)):\n")],
     '''
from dispersion import Material
try:
    Material(fixed_n=1.5, fixed_eps_r=0.0)
except ValueError:
    raise SystemExit(0)
raise SystemExit("two sources accepted")
''', "a second source whose value is zero", "two data sources are accepted")

seed("c09-unit-default", "C09",
     [("material.py", "        if inputs['unit'] is None:\n            inputs['unit'] = 'nanometer'\n",
       "        if inputs['unit'] is None:\n            inputs['unit'] = ('nanometer' if inputs.get('tabulated_eps') is None\n                              else 'micrometer')\n")],
     '''
import numpy as np
from dispersion import Material
m = Material(tabulated_eps=np.array([[400.0, 2.0, 0.1], [800.0, 3.0, 0.2]]))
assert abs(m.get_permittivity(600.0, unit="nm") - (2.5+0.15j)) < 1e-9
''', "a permittivity table without stated unit", "the default unit is not nanometre")

seed("c10-zero-start", "C10",
     [("material.py", "            upper = np.min([real_upper, imag_upper])\n",
       "            upper = np.min([real_upper, imag_upper]) if imag_lower > 0 else real_upper\n")],
     '''
import numpy as np
from dispersion import Material
from dispersion.spectral_data import Constant
m = Material(tabulated_n=np.array([[400.0, 1.5], [800.0, 1.6]]), unit="nm", spectrum_type="wavelength")
m.data["imag"] = Constant(0.1, valid_range=(0.0, 600.0), spectrum_type="wavelength", unit="nm")
r = m.get_maximum_valid_range()
assert abs(r[1] - 600.0) < 1e-6, r
''', "an imaginary part defined from zero up to a finite wavelength", "the reported range goes beyond the imaginary data")

seed("c10-unbounded-one-side", "C10",
     [("material.py", "        if max_range[0] == 0.0 or max_range[1] == np.inf:\n", "        if max_range[1] == np.inf:\n")],
     '''
import numpy as np
from dispersion import Material
m = Material(model_kw=dict(name="Sellmeier", parameters=np.array([0.0, 1.0, 0.1]), valid_range=np.array([0.0, 2.0]),
                           spectrum_type="wavelength", unit="um"))
s = m.get_sample_spectrum()
v = s.convert_to("wavelength", "nm")
assert abs(v[0] - 100) < 1e-6 and abs(v[-1] - 2000) < 1e-6, v
''', "a range that starts at zero and ends at a finite value", "no usable sample spectrum")

seed("c11-at-bound", "C11",
     [("spectral_data.py", "        elif extrap_val > base_range[1]:\n", "        elif extrap_val >= base_range[1]:\n")],
     '''
import numpy as np
from dispersion import Material, Spectrum
m = Material(tabulated_n=np.array([[400.0, 1.0], [500.0, 2.0], [600.0, 2.5], [700.0, 2.6]]), unit="nm", spectrum_type="wavelength")
try:
    m.extrapolate(Spectrum(700.0, unit="nm"))
except ValueError:
    raise SystemExit(0)
raise SystemExit("a point of the original range was accepted")
''', "extrapolating exactly to the upper bound", "a point inside the original range is accepted")

seed("c11-break", "C11",
     [("material.py", "                if isinstance(self.data[data_name], Constant):\n                    continue\n",
       "                if isinstance(self.data[data_name], Constant):\n                    break\n")],
     '''
import numpy as np
from dispersion import Material, Spectrum
from dispersion.spectral_data import Constant
m = Material(tabulated_nk=np.array([[400.0, 1.0, 0.1], [500.0, 2.0, 0.2], [600.0, 2.5, 0.2], [700.0, 2.6, 0.1]]), unit="nm", spectrum_type="wavelength")
m.data["real"] = Constant(1.5)
m.extrapolate(Spectrum(800.0, unit="nm"))
m.get_nk_data(750.0, unit="nm")
''', "a material with a constant real part and a tabulated imaginary part", "the imaginary part is not extended")

seed("c12-cutoff", "C12",
     [("material.py", "        small_number_cutoff = 1e-6\n", "        small_number_cutoff = 1e-6 if self.frac < 0.5 else 0.0\n")],
     '''
import numpy as np
from dispersion import Material, Spectrum
from dispersion.material import MaxwellGarnett
f = 0.75
a, b = Material(fixed_eps=1.0+0j), Material(fixed_eps=-(2+f)/(1-f)+1e-9j)
try:
    MaxwellGarnett(Spectrum(np.array([400.0, 500.0]), unit="nm"), a, b, f)
except ValueError:
    raise SystemExit(0)
raise SystemExit("nearly singular medium accepted")
''', "a filling fraction of one half or more and a nearly singular denominator", "nearly singular media are accepted")

seed("c12-bruggeman-branch", "C12",
     [("material.py", "    def _get_bruggeman_solution2(self, eps_b, eps_a):\n        q = -0.5*eps_a*eps_b\n", "    def _get_bruggeman_solution2(self, eps_b, eps_a):\n        q = -0.5*eps_a*np.where(np.imag(eps_b) < 0, np.real(eps_b), eps_b)\n")],
     '''
import numpy as np
from dispersion import Material, Spectrum
from dispersion.material import Bruggeman
t = lambda a, b: Material(tabulated_eps=np.array([[400.0, a.real, a.imag], [500.0, b.real, b.imag], [600.0, b.real, b.imag]]), unit="nm", spectrum_type="wavelength")
rng = np.random.default_rng(0)
bad = 0
for k in range(3000):
    z = rng.uniform(-6, 6, 4) + 1j*rng.uniform(-4, 4, 4)
    f = rng.uniform(0.05, 0.95)
    m = Bruggeman(Spectrum(np.array([400.0, 500.0, 600.0]), unit="nm"), t(z[0], z[1]), t(z[2], z[3]), f)
    for x, e1, e2 in ((400.0, z[0], z[2]), (500.0, z[1], z[3])):
        e = m.get_permittivity(x, unit="nm")
        r = f*(e2-e)*(e1+2*e) + (1-f)*(e1-e)*(e2+2*e)
        assert abs(r) < 1e-6*(1+abs(e)**2+abs(e1)**2+abs(e2)**2), r
        other = -e1*e2/2/e
        assert e.imag >= -1e-9 or other.imag < 1e-9, (k, e, other)
''', "a base medium with gain, and a point that needs the second solution", "the value does not solve the mixing equation")

seed("c13-previous-row", "C13",
     [("io.py", "            continue\n        else:\n            new_rows.append(tabulated_data[row, :])\n            last_valid = tabulated_data[row, 0]\n",
       "            if row > 1:\n                last_valid = tabulated_data[row, 0]\n        else:\n            new_rows.append(tabulated_data[row, :])\n            last_valid = tabulated_data[row, 0]\n")],
     '''
import numpy as np
from dispersion.io import _str_table_to_numeric
t = np.array([[1.0, 10], [5.0, 11], [2.0, 12], [3.0, 13], [6.0, 14]])
got = _str_table_to_numeric(t)
assert got[:, 0].tolist() == [1.0, 5.0, 6.0], got
''', "a dip of more than one row, not at the second row", "rows below the largest kept value are kept, so the table is not increasing")

seed("c13-blank-line", "C13",
     [("io.py", "            if row.isspace() or row == \"\":\n                break\n", "            if row.isspace() or row == \"\":\n                if len(numeric_table) < 3:\n                    break\n                continue\n")],
     '''
from dispersion.io import _str_table_to_numeric
got = _str_table_to_numeric("1 2\\n2 3\\n3 4\\n\\n4 5\\n")
assert got.shape == (3, 2), got
''', "a blank line after at least three rows", "rows after the blank line are read")

seed("c14-colon-value", "C14",
     [("io.py", "                arg = \":\".join(kwd_arg[1:]).rstrip", "                arg = (\":\" if len(kwd_arg) < 4 else \",\").join(kwd_arg[1:]).rstrip")],
     '''
import numpy as np, os
from dispersion import Material, Writer
m = Material(tabulated_nk=np.array([[400., 1.5, 0.1], [500., 1.6, 0.2]]), spectrum_type="wavelength", unit="nm")
m.meta_data["Reference"] = "doi:10.1/x, https://a.b"
f = os.path.join(os.environ["SCRATCH"], "a.txt")
Writer(f, m).write_file()
r = Material(file_path=f)
assert r.meta_data["Reference"] == m.meta_data["Reference"], r.meta_data
''', "a metadata value holding two colons", "metadata changes in the round trip")

seed("c14-empty-header-line", "C14",
     [("io.py", "                if line[0] == \"#\" or line[0] == ';':\n                    comment.append", "                if line[0] in '#;' and (line[1:].strip() or not comment):\n                    comment.append")],
     '''
import numpy as np, os
from dispersion import Material, Writer
m = Material(tabulated_eps=np.array([[4., 1.5, 0.1], [5., 1.6, 0.2]]), spectrum_type="energy", unit="ev")
m.meta_data["MetaComment"] = "first paragraph\\n\\nsecond paragraph"
m.meta_data["Author"] = "A"
f = os.path.join(os.environ["SCRATCH"], "a.txt")
Writer(f, m).write_file()
r = Material(file_path=f)
assert r.data["name"] == "eps" and r.meta_data["Author"] == "A", (r.data, r.meta_data)
''', "a meta-comment with an empty line", "the header after the meta-comment is lost, so kind of data, unit and metadata change")

seed("c15-spec-key", "C15",
     [("io.py", "                    if spec_key == key:\n                        yaml_spec[spec_key] = val\n", "                    if key.endswith(spec_key):\n                        yaml_spec[spec_key] = val\n")],
     '''
import numpy as np, os
from dispersion import Material, Writer
m = Material(tabulated_nk=np.array([[400., 1.5, 0.1], [500., 1.6, 0.2]]), spectrum_type="wavelength", unit="nm")
m.meta_data["Specification"] = {"temperature": "20 C", "deposition_temperature": "300 C"}
f = os.path.join(os.environ["SCRATCH"], "a.yml")
Writer(f, m).write_file()
r = Material(file_path=f)
assert dict(r.meta_data["Specification"]) == m.meta_data["Specification"], r.meta_data
''', "a specification with both temperature and deposition_temperature, in this order", "the temperature is replaced by the deposition temperature")

seed("c16-eps-swap", "C16",
     [("material.py", "        elif identifier == 'eps':\n            self.data['name'] = 'eps'\n", "        elif identifier == 'eps':\n            self.data['name'] = 'eps' if self.data['name'] is None else self.data['name']\n")],
     '''
import os
from dispersion import Material
f = os.path.join(os.environ["SCRATCH"], "a.yml")
open(f, "w").write("DATA:\\n  - type: tabulated k\\n    data: |\\n        0.4 0.1\\n        0.5 0.2\\n  - type: tabulated eps\\n    data: |\\n        0.4 2.0 0.1\\n        0.5 3.0 0.2\\n")
m = Material(file_path=f, spectrum_type="wavelength", unit="um")
assert m.data["name"] == "eps", m.data
''', "a file with a k table before a permittivity table", "permittivity is taken for refractive index")

seed("c16-k-column", "C16",
     [("io.py", "            elif dataset['Data'].shape[1] == 2:\n                dataset['DataType'] = 'tabulated n'\n", "            elif dataset['Data'].shape[1] == 2:\n                dataset['DataType'] = 'tabulated k' if np.all(dataset['Data'][:, 1] < 0.1) else 'tabulated n'\n")],
     '''
import os
from dispersion import Material
f = os.path.join(os.environ["SCRATCH"], "a.txt")
open(f, "w").write("400 0.05\\n500 0.06\\n")
m = Material(file_path=f, spectrum_type="wavelength", unit="nm")
assert abs(m.get_nk_data(450.0, unit="nm") - 0.055) < 1e-9, m.get_nk_data(450.0, unit="nm")
''', "a two column text file of small values without data type", "a table of n is taken for k")

seed("c17-position-label", "C17",
     [("catalogue.py", "            row = self.database.iloc[identifier, :]\n", "            row = self.database.loc[identifier, :]\n")],
     '''
import os, warnings
import pandas as pd
from dispersion import Catalogue
t = os.environ["SCRATCH"]
os.mkdir(t + "/UserData")
for k in (1, 2):
    open(t + "/UserData/m%d.txt" % k, "w").write("400 %d.5\\n500 %d.5\\n" % (k, k))
conf = {"Path": t, "File": "c.csv", "Interactive": False, "WarnMissingPackages": False, "Modules": {"UserData": True}, "ReferenceSpectrum": {"Value": 450.0, "SpectrumType": "wavelength", "Unit": "nm"}}
c = Catalogue(config=conf, rebuild="All")
c.set_database(c.get_database().sort_values("Name", ascending=False))
names = list(c.get_database().Name)
m = c.get_material(0)
assert abs(m.get_nk_data(450.0, unit="nm").real - float(names[0][1:]) - 0.5) < 1e-9
c.set_database(c.get_database().sort_values("Name"))
m = c.get_material(0)
assert abs(m.get_nk_data(450.0, unit="nm").real - 1.5) < 1e-9
''', "a sorted or filtered catalogue", "an integer no longer means the row position")

seed("c17-alias-case", "C17",
     [("catalogue.py", "            bool_array = self.database.Alias.values == identifier\n", "            known = 'Alias' if identifier in self.database.Alias.values else 'Name'\n            bool_array = self.database[known].values == identifier\n")],
     '''
import os
from dispersion import Catalogue
t = os.environ["SCRATCH"]
os.mkdir(t + "/UserData")
open(t + "/UserData/m1.txt", "w").write("400 1.5\\n500 1.5\\n")
conf = {"Path": t, "File": "c.csv", "Interactive": False, "WarnMissingPackages": False, "Modules": {"UserData": True}, "ReferenceSpectrum": {"Value": 450.0, "SpectrumType": "wavelength", "Unit": "nm"}}
c = Catalogue(config=conf, rebuild="All")
try:
    c.get_material("m1")
except ValueError:
    raise SystemExit(0)
raise SystemExit("unknown alias accepted")
''', "an unknown alias which equals the name of some row", "an unknown alias gives a material")

seed("c17-write-before-check", "C17",
     [("catalogue.py", "        if alias in self.database.loc[:, 'Alias'].values:\n            if not self.database.at[index, 'Alias'] == alias:\n", "        taken = alias in self.database.loc[:, 'Alias'].values\n        previous = self.database.at[index, 'Alias']\n        self.database.at[index, 'Alias'] = \"\"\n        if taken:\n            if not previous == alias:\n")],
     '''
import os
from dispersion import Catalogue
t = os.environ["SCRATCH"]
os.mkdir(t + "/UserData")
for k in (1, 2):
    open(t + "/UserData/m%d.txt" % k, "w").write("400 1.5\\n500 1.5\\n")
conf = {"Path": t, "File": "c.csv", "Interactive": False, "WarnMissingPackages": False, "Modules": {"UserData": True}, "ReferenceSpectrum": {"Value": 450.0, "SpectrumType": "wavelength", "Unit": "nm"}}
c = Catalogue(config=conf, rebuild="All")
c.register_alias(0, "a")
c.register_alias(1, "b")
try:
    c.register_alias(1, "a")
except ValueError:
    pass
assert list(c.get_database().Alias) == ["a", "b"], list(c.get_database().Alias)
''', "a refused registration for a row that already has an alias", "the row loses its alias")

seed("c18-missing-only", "C18",
     [("catalogue.py", "                    dframe = df[df.Module == module]\n", "                    dframe = df[df.Module == module].drop_duplicates(subset=['Name', 'Author'])\n")],
     '''
import os
from dispersion import Catalogue
t = os.environ["SCRATCH"]
for m in ("UserData", "Filmetrics"):
    os.mkdir(t + "/" + m)
open(t + "/UserData/m.txt", "w").write("400 1.5\\n500 1.5\\n")
open(t + "/Filmetrics/m.txt", "w").write("400 1.5\\n500 1.5\\n")
open(t + "/Filmetrics/m.csv", "w").write("400,1.5\\n500,1.5\\n")
conf = {"Path": t, "File": "c.csv", "Interactive": False, "WarnMissingPackages": False, "Modules": {"UserData": True, "Filmetrics": True}, "ReferenceSpectrum": {"Value": 450.0, "SpectrumType": "wavelength", "Unit": "nm"}}
Catalogue(config=conf, rebuild="All").save_to_file()
c = Catalogue(config=conf, rebuild=["UserData"])
assert len(c.get_database()) == 3, c.get_database()
''', "a module not rebuilt with two rows of the same name and author", "rows of modules that were not chosen vanish")

seed("c18-na-names", "C18",
     [("catalogue.py", "                             keep_default_na=False)", "                             keep_default_na=rebuild not in ('None', 'All'))")],
     '''
import os
from dispersion import Catalogue
t = os.environ["SCRATCH"]
for m in ("UserData", "Filmetrics"):
    os.mkdir(t + "/" + m)
    open(t + "/" + m + "/m.txt", "w").write("400 1.5\\n500 1.5\\n")
conf = {"Path": t, "File": "c.csv", "Interactive": False, "WarnMissingPackages": False, "Modules": {"UserData": True, "Filmetrics": True}, "ReferenceSpectrum": {"Value": 450.0, "SpectrumType": "wavelength", "Unit": "nm"}}
c = Catalogue(config=conf, rebuild="All")
c.register_alias(0, "NA")
c.save_to_file()
c = Catalogue(config=conf, rebuild=["Filmetrics"])
assert sorted(c.get_database().Alias) == ["", "NA"], list(c.get_database().Alias)
''', "a rebuild of some modules", "empty entries and entries such as NA of the other modules become NaN")

seed("c18-page-error", "C18",
     [("catalogue.py", "                    warnings.warn(\"file {} \".format(full_file) +\n                                  \"could not be opened, skipping\")\n                    continue\n",
       "                    warnings.warn(\"file {} \".format(full_file) +\n                                  \"could not be opened, skipping\")\n                    break\n")],
     '''
import os, warnings
from dispersion import Catalogue
t = os.environ["SCRATCH"]
os.makedirs(t + "/RefractiveIndexInfo/database/data")
d = t + "/RefractiveIndexInfo/database/"
open(d + "data/b.yml", "w").write("DATA:\\n  - type: tabulated n\\n    data: |\\n        0.4 1.5\\n        0.5 1.6\\n")
open(d + "library.yml", "w").write("- SHELF: s\\n  name: S\\n  content:\\n    - BOOK: Ag\\n      name: Silver\\n      content:\\n        - PAGE: A\\n          name: A\\n          data: a.yml\\n        - PAGE: B\\n          name: B\\n          data: b.yml\\n")
conf = {"Path": t, "File": "c.csv", "Interactive": False, "WarnMissingPackages": False, "Modules": {"RefractiveIndexInfo": True}, "ReferenceSpectrum": {"Value": 450.0, "SpectrumType": "wavelength", "Unit": "nm"}}
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    c = Catalogue(config=conf, rebuild="All")
assert list(c.get_database().Author) == ["B"], c.get_database()
''', "an unreadable page followed by readable ones in the same book", "readable pages after an unreadable one are lost")

seed("c19-int-switch", "C19",
     [("config.py", "        check_type(value,bool)\n    assert \"Ref", "        check_type(value,(bool, type(None)))\n    assert \"Ref")],
     '''
import os
from dispersion.config import validate_config
conf = {"Path": os.environ["SCRATCH"], "File": "c.csv", "Interactive": False, "WarnMissingPackages": False, "Modules": {"UserData": True, "Filmetrics": None}, "ReferenceSpectrum": {"Value": 450.0, "SpectrumType": "wavelength", "Unit": "nm"}}
try:
    validate_config(conf)
except Exception:
    raise SystemExit(0)
raise SystemExit("accepted")
''', "a module switch left empty in the configuration file", "the configuration is accepted")

seed("c19-file-as-path", "C19",
     [("config.py", "    if not os.path.isdir(config['Path']):", "    if not os.path.exists(config['Path']):")],
     '''
import os
from dispersion.config import validate_config
f = os.environ["SCRATCH"] + "/a"
open(f, "w").close()
conf = {"Path": f, "File": "c.csv", "Interactive": False, "WarnMissingPackages": False, "Modules": {"UserData": True}, "ReferenceSpectrum": {"Value": 450.0, "SpectrumType": "wavelength", "Unit": "nm"}}
try:
    validate_config(conf)
except Exception:
    raise SystemExit(0)
raise SystemExit("accepted")
''', "a path that names an existing file", "the configuration is accepted")

seed("c19-package-first", "C19",
     [("config.py", "    if os.path.isfile(file_path):\n        return user_dir\n", "    if os.path.isfile(file_path) and os.path.getsize(file_path) < 4096:\n        return user_dir\n")],
     '''
import os
from dispersion.config import get_config
d = os.environ["HOME"] + "/.config/dispersion"
os.makedirs(d, exist_ok=True)
open(d + "/config.yaml", "w").write("#" + "x"*5000 + "\\nFile: mine.csv\\n")
assert get_config()["File"] == "mine.csv"
''', "a long configuration file in the user folder", "the configuration of the user is ignored")

seed("c19-bad-name", "C19",
     [("config.py", "    if not valid_file_name(config['File']):", "    if not valid_file_name(config['File'].strip()):")],
     '''
import os
from dispersion.config import validate_config
conf = {"Path": os.environ["SCRATCH"], "File": "x"*254 + "  ", "Interactive": False, "WarnMissingPackages": False, "Modules": {"UserData": True}, "ReferenceSpectrum": {"Value": 450.0, "SpectrumType": "wavelength", "Unit": "nm"}}
try:
    validate_config(conf)
except Exception:
    raise SystemExit(0)
raise SystemExit("accepted")
''', "a file name too long only because of surrounding blanks", "the configuration is accepted")

seed("c20-empty-no", "C20",
     [("scripts/setup_dispersion.py", "        if confirmation1 in {'y', 'yes'}:\n            confirmed_input = True\n", "        if confirmation1.strip() in {'y', 'yes'}:\n            confirmed_input = True\n")],
     '''
import builtins, io, contextlib
from dispersion.scripts import setup_dispersion as s
answers = iter([" y", "n"])
builtins.input = lambda q="": next(answers)
with contextlib.redirect_stdout(io.StringIO()):
    r = s.get_confirmation("?")
assert r is False, r
''', "an answer with blanks around the y", "an answer that is not exactly yes is taken for yes")

seed("c20-default-unchecked", "C20",
     [("scripts/setup_dispersion.py", "        if user_input == \"\":\n            user_input = default\n        if validator(user_input):\n", "        if user_input == \"\":\n            return default\n        if validator(user_input):\n")],
     '''
import builtins, io, contextlib
from dispersion.scripts import setup_dispersion as s
answers = iter(["", "b"])
builtins.input = lambda q="": next(answers)
with contextlib.redirect_stdout(io.StringIO()):
    r = s.ask("? {}", "a", lambda x: x == "b")
assert r == "b", r
''', "an empty answer while the default is not valid", "a value refused by its validator is returned")

seed("c20-stale-path", "C20",
     [("scripts/setup_dispersion.py", "            success = install_funcs[module](module_dir)\n            if success is False:\n                conf['Modules'][module] = success\n", "            success = install_funcs[module](module_dir)\n            if success is False and not os.listdir(module_dir):\n                conf['Modules'][module] = success\n")],
     '''
import builtins, io, contextlib, os, warnings
from dispersion.scripts import setup_dispersion as s
t = os.environ["SCRATCH"]
os.makedirs(t + "/db/RefractiveIndexInfo/other")
answers = iter(["y", "n"])
builtins.input = lambda q="": next(answers)
conf = {"Path": t + "/db", "File": "c.csv", "Modules": {"UserData": True, "RefractiveIndexInfo": True}}
with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
    warnings.simplefilter("ignore")
    conf = s.install_modules(conf)
assert conf["Modules"]["RefractiveIndexInfo"] is False, conf
''', "a module folder that exists and is not empty but holds no database", "a module that was not installed is enabled")

seed("c20-rebuild-anyway", "C20",
     [("catalogue.py", "        ans = input(\"really rebuild and overwrite material catalogue? (y/n) \")\n        if ans == 'n':\n            valid_ans = True\n            return\n        elif ans == 'y':\n            valid_ans = True\n",
       "        ans = input(\"really rebuild and overwrite material catalogue? (y/n) \")\n        if ans == 'n':\n            valid_ans = True\n            return\n        elif ans[-1:] == 'y':\n            valid_ans = True\n")],
     '''
import builtins, io, contextlib
import dispersion.catalogue as c
answers = iter(["any", "n"])
builtins.input = lambda q="": next(answers)
done = []
class Fake:
    def __init__(self, *a, **k):
        done.append(k)
    def save_to_file(self):
        done.append("saved")
c.Catalogue = Fake
c.rebuild_catalogue()
assert not done, done
''', "an answer that merely ends in y", "the catalogue is overwritten without a yes")

seed("c15-unit-merge", "C15",
     [("material.py", "        if datasets[0]['Unit'] != datasets[1]['Unit']:\n            collapse = False\n", "        if datasets[0]['Unit'] != datasets[1]['Unit']:\n            collapse = collapse and len(n_data) > 3\n")],
     '''
import numpy as np, os
from dispersion import Material, Writer, Interpolation
x = np.array([1., 2., 3., 4., 5.])
m = Material(tabulated_n=np.array([x, x/10+1]).T, spectrum_type="wavelength", unit="m")
m.data["imag"] = Interpolation(np.array([x, x/20]).T, spectrum_type="wavelength", unit="um")
f = os.path.join(os.environ["SCRATCH"], "a.yml")
Writer(f, m).write_file()
r = Material(file_path=f)
assert r.data["imag"].unit == "um", r.data["imag"].unit
''', "n and k on the same numbers (more than three) in different units", "k is read back in the unit of n")

seed("c16-range-order", "C16",
     [("material.py", "        model_dict['valid_range'] = valid_range\n\n", "        model_dict['valid_range'] = valid_range if len(str(data_dict['Data']).split()) < 6 else sorted(valid_range)[:1]*2\n\n")],
     '''
import os
from dispersion import Material
f = os.path.join(os.environ["SCRATCH"], "a.yml")
open(f, "w").write("DATA:\\n  - type: formula 1\\n    coefficients: 0 1 0.1 1 0.2 1 9\\n    wavelength_range: 0.3 0.9\\n")
m = Material(file_path=f, spectrum_type="wavelength", unit="um")
assert list(m.data["real"].valid_range.values) == [0.3, 0.9], m.data["real"].valid_range.values
''', "a formula with more than five coefficients", "the range of the file is lost")
