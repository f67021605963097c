#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the statements stay readable)"""
import json, os
S="src/dispersion/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
                     state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
                     mechanism=[dict(name=a,where=S+b) for a,b in mech],
                     observe_at=list(observe),hook_needed=None)))

prop("C01","Spectral quantities convert faithfully between all types and units",
 "For every supported spectrum type and unit and every non-negative value, a spectrum converted to any supported type and unit reports the physically equivalent quantity (wavelength = c/frequency = h c/energy = 2 pi c/angular frequency = 2 pi/wavenumber, with unit prefixes), up to a rounding grain of at most 1e-15 m for wavelengths and 1e-9 eV for energies, so converting there and back recovers the value. Reciprocal conversions turn 0 into infinity and infinity into 0. Scalars, lists, tuples and integer or floating arrays convert alike, entry by entry, keeping order and length.",
 ["inputs"],"all 9x9 ordered pairs of (type, unit), all non-negative reals plus infinity, scalars and 1-d sequences of every length",
 "tests convert a handful of values and most assert nothing about the converted values; the quantifier is over all unit pairs and values",
 ["spectrum.py"],[("safe inverse and to-standard/from-standard conversion functions","spectrum.py"),("Spectrum.convert_from / convert_to","spectrum.py")],
 [("standard_rep","values as wavelength in metres","spectrum.py")],["Spectrum(...).convert_to(...)"])

prop("C02","Type and unit names resolve exactly; every other name is refused",
 "Every supported spectrum type name and unit name or alias, in any letter case, is accepted both when a spectrum is created and when it is converted, and all aliases of a unit mean the same unit; any other type name, or a unit that does not belong to the type, raises ValueError and leaves an existing spectrum unchanged. Converting without the in-place option changes nothing about the spectrum. In-place conversion changes values, type and unit together, so the spectrum still denotes the same physical quantity afterwards and in all later conversions.",
 ["inputs","histories"],"all strings as type and unit names; all spectra; histories of conversions",
 "tests use a few valid names, never invalid ones, and never convert in place or twice",
 ["spectrum.py"],[("alias tables and unit standardisation","spectrum.py"),("in-place branch of the conversion","spectrum.py")],
 [("values/spectrum_type/unit/standard_rep","must stay mutually consistent","spectrum.py")],["Spectrum constructor","Spectrum.convert_to"])

prop("C03","Evaluation is refused exactly when a request leaves the valid range",
 "For constants, tables and every dispersion model with a given valid range, evaluating a request given in any spectrum type and unit raises ValueError if any requested point lies outside the valid range, and succeeds if all points lie inside it (bounds included). The verdict does not depend on the unit or type used for the request or on the order or number of the points.",
 ["inputs"],"all valid ranges, all requests (scalar or any length), all pairs of units and types, all data kinds",
 "the only test of range checking is one in-range case in the same unit; no test requests a value out of range",
 ["spectrum.py","spectral_data.py"],[("Spectrum.contains","spectrum.py"),("range check at the start of every evaluate / Model.preprocess","spectral_data.py")],
 [("valid_range","spectrum delimiting where the data is defined","spectral_data.py")],["SpectralData.evaluate"])

prop("C04","Each refractive-index formula returns its published value",
 "For every coefficient list of the documented shape (any number of terms) and every wavelength in range away from poles, the nine refractive-index formulas (Sellmeier, Sellmeier-2, Polynomial, RefractiveIndex.INFO, Cauchy, Gases, Herzberger, Retro, Exotic) return the value of the corresponding refractiveindex.info formula 1 to 9, evaluated at the wavelength in micrometres, whatever unit the request is given in. Arrays are evaluated entry by entry.",
 ["inputs"],"all coefficient lists of any length (lists or arrays), all wavelengths, scalar or array requests, all request units",
 "one Sellmeier value at one wavelength to three digits is tested; the other eight formulas are never evaluated",
 ["spectral_data.py"],[("evaluate of the nine formula models","spectral_data.py"),("Model.preprocess","spectral_data.py")],(),["Model.evaluate"])

prop("C05","Permittivity models return their published complex value",
 "For all real parameters (for Tauc-Lorentz those for which the formula is defined, positive energies and broadening with C < sqrt(2) E0) and every photon energy in range away from poles, the Drude, Drude-Lorentz and Tauc-Lorentz models return 1 - wp^2/(E^2+i g E), 1 + f wp^2/(w0^2-E^2-i g E) and the Jellison-Modine Tauc-Lorentz permittivity (zero imaginary part below the gap), and the Fano model returns (q+e)^2/((1+q^2)(1+e^2)) with e = 2(E-Er)/g, for scalar and array requests in any spectrum type and unit. For non-negative oscillator strengths and losses the imaginary part is never negative.",
 ["inputs"],"all parameter values, all energies, scalar or array requests in any unit",
 "the Drude test asserts one number; Drude-Lorentz, Tauc-Lorentz and Fano are never run",
 ["spectral_data.py"],[("evaluate of Drude, DrudeLorentz, TaucLorentz, Fano","spectral_data.py")],(),["Model.evaluate"])

prop("C06","Tabulated data is interpolated in its own unit, column by column",
 "A material or data set made from a table reproduces the tabulated value at every tabulated point and interpolates between neighbouring points (linearly by default, with the requested interpolation order otherwise), in the table's own spectrum type and unit whatever the unit of the request. Columns keep their meaning: n and k, or real and imaginary permittivity, and an absorption coefficient alpha (1/cm) becomes k = alpha * wavelength / (4 pi). A one-row table is a constant defined only at that point.",
 ["inputs"],"all tables (any number of rows, any values, any type/unit), all requests in range",
 "one two-row table is interpolated at its nodes; nk, eps, n-alpha tables, other units and interpolation orders are untested",
 ["spectral_data.py","material.py"],[("Interpolation","spectral_data.py"),("table processing of Material","material.py")],(),["Interpolation.evaluate","Material.get_nk_data","Material.get_permittivity"])

prop("C07","Refractive index and permittivity of a material are one quantity",
 "For every material and request, the permittivity equals the square of the complex refractive index, whichever of the two the material was defined by (for one defined by its permittivity the refractive index is the principal square root) and whether through separate parts or one complex model. The real and imaginary data end up in the real and imaginary part, a part that was not given counts as zero, and a material defined by a fixed n, n+ik, real permittivity or complex permittivity returns exactly that value. Removing absorption from data with separate parts makes the imaginary part zero and keeps the real part.",
 ["inputs","histories"],"all data kinds for each part, all values, all requests in range",
 "tests evaluate the refractive index of one constant and one Drude material; permittivity is never requested",
 ["material.py"],[("Material.get_nk_data / get_permittivity","material.py"),("fixed-value and partial-data handling","material.py")],
 [("data","name plus real/imag/complex spectral data","material.py")],["Material.get_nk_data","Material.get_permittivity"])

prop("C08","Evaluation is pointwise, repeatable and free of side effects",
 "Evaluating a data set or material on n points returns n values in the same order, each equal to evaluating that point alone (a scalar request gives a single value). Evaluating never changes the request, the table, the coefficients or the material, so the same request always gives the same answer whatever was evaluated, created or converted before, and two materials never influence each other.",
 ["inputs","histories"],"all data kinds, all requests, all sequences of evaluations on one or several materials",
 "no test evaluates twice, compares array with scalar results, or looks at arguments afterwards",
 ["spectral_data.py","material.py","spectrum.py"],[("evaluate methods","spectral_data.py"),("Material.get_nk_data / get_permittivity","material.py")],(),["SpectralData.evaluate","Material.get_nk_data","Material.get_permittivity"])

prop("C09","A material is created from exactly one well-formed source",
 "Creating a material succeeds only if exactly one of the data sources (file, fixed n, fixed n+ik, fixed real permittivity, fixed permittivity, the four kinds of table, model) is given: none or more than one raises ValueError, whatever the combination. A source or option of the wrong Python type raises TypeError, a table with the wrong number of columns or dimensions raises ValueError, and arguments given as None count as not given. The given source alone determines the data, and spectrum type and unit default to wavelength and nanometre.",
 ["inputs"],"all combinations of keyword arguments and argument types",
 "tests only construct valid materials from one source",
 ["material.py"],[("argument parsing and type checks of Material","material.py")],(),["Material constructor"])

prop("C10","The reported valid range is the common range of both parts",
 "The maximum valid range of a material is, in its default type and unit and in ascending order, the intersection of the ranges of its real and imaginary data (or the range of its complex model), provided these overlap, whatever units these parts are defined in, so requests inside it evaluate and requests outside it raise ValueError. The sample spectrum lies within that range and reaches both ends, or is 100 to 2000 nm when the range is unbounded.",
 ["inputs"],"all ranges and units of both parts, separate or complex data, all default units",
 "no test requests a valid range or a sample spectrum",
 ["material.py","spectral_data.py"],[("Material.get_maximum_valid_range / get_sample_spectrum","material.py")],(),["Material.get_maximum_valid_range","Material.get_sample_spectrum"])

prop("C11","Extrapolation extends the range and leaves the original data alone",
 "After extrapolating, every point inside the original range returns exactly its original value, also in requests that go beyond it, requests that stay inside the extended range succeed, and requests beyond the extended range still raise ValueError. The extended range is the original one with each given point replacing the bound it lies beyond (two points beyond the same bound are not covered), in any spectrum type or unit; a given point inside the original range, or more than two points, raises ValueError. Constants stay as they are, materials with one complex model refuse with NotImplementedError, and the spectra passed in are left unchanged.",
 ["inputs","histories"],"all base data, all extension points and units, all later requests",
 "no test extrapolates",
 ["spectral_data.py","material.py"],[("Extrapolation","spectral_data.py"),("Material.extrapolate","material.py")],(),["Material.extrapolate","Extrapolation.evaluate"])

prop("C12","Effective media obey their mixing laws",
 "For every pair of materials, spectrum and filling fraction f in [0,1], the effective permittivity at each point of the spectrum is (1-f) e1 + f e2 (simple), the Maxwell-Garnett value e1 (2(1-f) e1 + (1+2f) e2)/((2+f) e1 + (1-f) e2), or for Bruggeman a solution of f (e2-e)/(e2+2e) + (1-f) (e1-e)/(e1+2e) = 0 with non-negative imaginary part whenever one exists; f = 0 gives the first and f = 1 the second material for the simple and Maxwell-Garnett rules. A fraction outside [0,1] and a (nearly) singular Maxwell-Garnett denominator at any point raise ValueError. The input materials and spectrum are unchanged.",
 ["inputs"],"all complex permittivities, all fractions, spectra of any length and unit",
 "no test creates an effective medium",
 ["material.py"],[("EffectiveMedium, Simple, MaxwellGarnett, Bruggeman","material.py")],(),["get_permittivity of the effective medium"])

prop("C13","Tables read from data are strictly ordered and lose only offending rows",
 "Converting table data (text or array) to numbers keeps every row of a table whose first column is strictly increasing, unchanged and in order, and every row of one whose first column is strictly decreasing, in reversed order. Otherwise the result is exactly the rows whose first entry exceeds that of every row kept before (the first row is always kept), so its first column is strictly increasing. Text rows are parsed entry by entry up to the first blank line, and data that is neither text nor an array raises TypeError.",
 ["inputs"],"all tables of any number of rows and columns",
 "no test exercises unordered tables or the text parser",
 ["io.py"],[("table validation, repair and string parsing","io.py")],(),["Material(file_path=...)","table conversion functions"])

prop("C14","Text material files survive a write/read round trip",
 "Writing a material whose data is an n, n+ik or permittivity table (two or more rows) to a .txt, .csv or .nk file and reading it back gives a material with the same kind of data, spectrum type and unit, the same reference, author, name, full name and comment, and the same table to at least 8 significant digits, for tables of any length and magnitude. The optional meta-comment precedes the header and does not disturb the data.",
 ["inputs","configurations"],"all tables (any length, any magnitudes), units, single-line metadata strings, the three extensions",
 "no passing test writes or reads a file",
 ["io.py","material.py"],[("Writer text branch","io.py"),("Reader text branch","io.py"),("file dictionary of Material","material.py")],(),["Writer.write_file","Material(file_path=...)"])

prop("C15","YAML material files survive a write/read round trip",
 "Writing a material whose parts are tables (of two or more rows) or models (an absent part counting as zero) to a .yml file and reading it back gives a material whose parts have the same kind, parameters or table values (to at least 8 significant digits), valid range, spectrum type and unit, and the same metadata, including meta-comment and specification, for tables and coefficient lists of any length. Tables of n and k on the same points may be merged into one data set, tables on different points are kept apart.",
 ["inputs"],"all tables and coefficient lists of any length and magnitude, units, metadata",
 "no passing test writes or reads a file",
 ["io.py","material.py","spectral_data.py"],[("Writer YAML branch","io.py"),("Reader YAML branch","io.py"),("dict_repr / dataset collapsing","material.py")],(),["Writer.write_file","Material(file_path=...)"])

prop("C16","Files are interpreted as their headers declare",
 "A data set of type 'formula N' (1 to 9) or 'model NAME' becomes the corresponding model with the file's coefficients and range, and 'tabulated n|k|nk|eps' the corresponding table; spectrum type and unit stated in a data set apply to that data, otherwise the defaults given by the caller apply. Text files without a data type are n tables with 2 columns and n+ik tables with 3, header entries are assigned by their key in any letter case, with colons allowed in values, and remaining header lines are kept as meta-comment. Unsupported extensions and data types raise an error instead of giving a material.",
 ["inputs","configurations"],"all header contents and data set types, any number of header lines, any coefficients",
 "the file tests need data that is not in the repository and do not run",
 ["io.py","material.py"],[("Reader","io.py"),("file/formula processing of Material","material.py")],(),["Material(file_path=...)","Reader.read_file"])

prop("C17","Catalogue aliases stay unique and lead to the registered material",
 "Registering an alias changes only the alias of the chosen row; an alias already held by another row, or a selection that is not exactly one row, raises ValueError and changes nothing, so non-empty aliases stay unique through any history of registrations. Looking up an alias loads the file of the row that holds it, an integer loads that row position, both with the row's spectrum type and unit, for any row order or row labels of the catalogue; an unknown alias or other identifier type raises ValueError.",
 ["inputs","histories"],"all catalogues (any number, order and labelling of rows), all registration histories, all identifiers",
 "the catalogue tests need network data and do not run",
 ["catalogue.py"],[("Catalogue.register_alias / get_material","catalogue.py")],
 [("database","table of material files","catalogue.py")],["Catalogue.register_alias","Catalogue.get_material"])

prop("C18","Rebuilding the catalogue affects exactly the chosen modules",
 "A rebuilt catalogue holds, for every enabled module in configuration order, freshly read rows if that module was chosen for rebuilding and the unchanged previous rows (aliases included) otherwise, and nothing of disabled modules; choosing a disabled module raises ValueError. Each freshly read row names an existing supported file of its module, an empty alias, the file's metadata, the material's valid range in the stated type and unit, and its refractive index at the reference point or NaN when that point is out of range. Unsupported files are skipped and unreadable pages of the literature database are skipped with a warning.",
 ["inputs","configurations"],"all module configurations, rebuild choices, previous catalogues and directory contents",
 "the catalogue tests need network data and do not run",
 ["catalogue.py"],[("Catalogue.build_catalogue and the module readers","catalogue.py")],(),["Catalogue(rebuild=...)"])

prop("C19","Only valid configurations are accepted, and one is always available",
 "Validation of a configuration passes only if path, file name, switches, module switches and reference spectrum are present with the documented types, the path is a directory and the file name can be used inside it; every other configuration raises an error. Checking a file name never creates or changes anything outside a temporary folder. The configuration is read from the user folder first, then from the package, and when neither has one the default, itself of valid structure, is returned.",
 ["inputs","configurations"],"all configuration contents and all states of the two configuration locations",
 "no passing test touches configuration beyond importing the package",
 ["config.py","io.py"],[("validate_config / get_config / default_config","config.py"),("valid_file_name","io.py")],(),["validate_config","get_config"])

prop("C20","Interactive setup acts only on valid, confirmed answers",
 "For every sequence of user answers, a prompt for a value returns the first answer accepted by its validator (an empty answer standing for the default), a yes/no prompt returns true exactly for y or yes and false exactly for n or no, asking again otherwise, and the catalogue is rebuilt and overwritten only after an explicit yes. Installing modules always enables the user-data module, records for each other module whether it was installed successfully, and creates nothing outside the module folders of the chosen path.",
 ["histories"],"all sequences of user answers of any length",
 "no test feeds user input",
 ["catalogue.py","scripts/setup_dispersion.py"],[("ask / get_confirmation / install_modules","scripts/setup_dispersion.py"),("rebuild_catalogue","catalogue.py")],(),["dispersion_setup","dispersion_catalogue_rebuild"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
