import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
p('C01','Concurrent computation equals the same computation run alone',
 'When several threads compute with quantities, units and constants that none of them modifies in place, every operation returns the same value, units and dtype (or raises the same kind of error) as it does when run alone, and that outcome is the physically correct one. This holds under every interleaving, also when a signal handler computes in the middle of a call, and while other threads define units, look units up, render, pickle, or change the default-unit, preferred-unit and unicode settings. No operand is ever altered, and the error handling of numpy and the warning filters are left as they were.',
 ['schedules','inputs'],'every interleaving of up to four threads running arithmetic, comparison, conversion, reduction, ufunc, indexing and construction operations on shared operands, with concurrent changes to all process-wide settings',
 'The tests are single-threaded and call each operation once on a handful of operands; a race on shared tables or caches, or a result that depends on what ran before, is invisible to them.',
 ['quantities/quantity.py','quantities/dimensionality.py','quantities/umath.py','quantities/unitquantity.py','quantities/registry.py'],
 [('conversion through reference units computed per call','quantities/quantity.py get_conversion_factor, rescale, _reference'),('dimensionality objects copied, never shared for writing','quantities/dimensionality.py Dimensionality, Quantity.dimensionality'),('unit rules per ufunc','quantities/dimensionality.py p_dict')],
 [('unit registry','label to unit, process-wide','quantities/registry.py'),('default units','per-dimension class attribute','quantities/unitquantity.py IrreducibleUnit'),('markup config','unicode flag and lock','quantities/markup.py')],
 ['return value and exception of each call','operands after each call'])
p('C02','A unit label never changes its meaning; competing definitions: one wins',
 'Once a label (name, symbol or alias, a plain identifier) resolves to a unit, it resolves to that same unit, from every thread, for the rest of the process, whatever definitions, failed definitions, reloads or look-ups follow; and every label of a definition that returned resolves to a unit of the meaning defined. If several definitions give one label different meanings (a different size or dimension), at most one takes effect and each of the others raises, under every interleaving. A look-up fails only if some label in it was not yet defined when the look-up began or the text is not a plain arithmetic expression, and a compound expression yields exactly the product of powers of the units its labels stand for.',
 ['schedules','histories','inputs'],'all interleavings and histories of define (with symbols and aliases), redefine, conflict, copy, unpickle, single-label and compound look-up by several threads',
 'The tests define a few units once, from one thread; they never race two definitions of one label, never redefine a label with another size, and never look up a label around its definition.',
 ['quantities/registry.py','quantities/unitquantity.py','quantities/quantity.py'],
 [('write-once insertion into the shared label table','quantities/registry.py UnitRegistry.__setitem__'),('registration of name, symbol and aliases','quantities/unitquantity.py UnitQuantity.__init__'),('label normalisation and evaluation','quantities/registry.py UnitRegistry.__getitem__')],
 [('label table','label to unit object','quantities/registry.py')],['unit_registry[label]','Quantity(1, label)','exceptions of unit definitions'])
p('C03','A failed unit definition leaves nothing behind',
 'When defining a unit raises an error - because any one of its labels is already taken by a different unit, because its definition or name is unusable, because evaluating its definition fails or because memory ran out - no label has been added or altered, no default unit has changed, and a later corrected definition of the same name succeeds. This holds for every position of the offending label, every kind of unit, and under every interleaving with other threads that define and look up units.',
 ['fault_sequences','schedules','histories'],'every kind of failing definition at every label position, allocation failures while the definition is evaluated, interleaved with other definitions and look-ups',
 'No test looks at the registry after a definition failed, and none makes the evaluation of a definition fail part way.',
 ['quantities/unitquantity.py','quantities/registry.py'],
 [('registration of name, symbol and aliases','quantities/unitquantity.py UnitQuantity.__init__'),('conflict check','quantities/registry.py UnitRegistry.__setitem__'),('compound unit construction','quantities/unitquantity.py CompoundUnit')],
 [('label table','label to unit object','quantities/registry.py'),('default units','per-dimension class attribute','quantities/unitquantity.py')],['unit_registry[label]','simplified','exceptions of unit definitions'])
p('C04','Default-unit changes are safe, immediate and all-or-nothing',
 'Simplifying a quantity always yields the same physical quantity, expressed in units each of which was the default for its dimension at some moment during the call, no matter how calls interleave with changes of default units or what was simplified before. A change of default units that returned is in effect for every later simplification in every thread and leaves every default it did not name as it was; a change that raises (unknown label, incompatible or non-unit argument, unknown system) leaves all defaults as they were. Conversions to explicitly named units and comparisons never depend on the defaults.',
 ['schedules','histories','fault_sequences'],'all histories and interleavings of set_default_units (system and per-dimension, valid and invalid) with simplification of quantities, units, constants, dimensionalities and with conversions and comparisons',
 'The tests change two or three defaults from one thread and always with valid arguments; they never fail a change half way or simplify while a change is in progress.',
 ['quantities/unitquantity.py','quantities/quantity.py','quantities/dimensionality.py','quantities/umath.py'],
 [('per-dimension default unit','quantities/unitquantity.py IrreducibleUnit.set_default_unit/get_default_unit'),('set_default_units','quantities/unitquantity.py'),('simplified','quantities/quantity.py, quantities/dimensionality.py, quantities/unitquantity.py')],
 [('default units','per-dimension class attribute','quantities/unitquantity.py IrreducibleUnit')],['simplified','rescale','set_default_units exceptions'])
p('C05','Text rendering always denotes the right units, canonically',
 'Every rendering of a quantity, unit or dimensionality (plain, unicode, LaTeX, HTML, str, repr, format) lists exactly its units with exactly their powers in a notation selectable at some moment of the call, no matter how calls interleave with switching the unicode setting or defining units, or what was rendered before; when no switch overlaps the call it is exactly the form of the setting in force. Two dimensionalities built from the same units render identically, whatever the order in which the units were combined, defined or reloaded. Switching the setting is in effect for every later rendering in every thread.',
 ['schedules','histories'],'all interleavings of rendering calls with switches of the unicode setting, unit definitions and reloads; all histories of earlier renderings',
 'The tests render fixed examples from one thread with the setting off; nothing renders while it is switched, or renders the same units again after a switch.',
 ['quantities/markup.py','quantities/dimensionality.py','quantities/quantity.py','quantities/unitquantity.py','quantities/uncertainquantity.py'],
 [('lock-protected unicode flag','quantities/markup.py _Config'),('unit ordering by per-unit order key','quantities/markup.py format_units, quantities/unitquantity.py format_order')],
 [('unicode flag','process-wide notation setting','quantities/markup.py'),('order counters','per-class counter giving each unit its place','quantities/unitquantity.py _secondary_order')],['strings returned'])
p('C06','A fault inside an operation never yields a wrong answer or lasting damage',
 'If an operation that does not modify its operands is hit, at any instant, by an interrupt (KeyboardInterrupt) or a failing memory allocation, it either raises or returns the correct result; never a wrong value or wrong units. Its operands, all existing units and labels, the default units, the display settings and the process-wide numpy and warning settings are as before. Repeating the operation once faults stop gives the correct result, in every thread.',
 ['fault_sequences','schedules','crash_points'],'an interrupt or memory error at every reachable instant inside every non-mutating operation, and a failing allocation at every array allocation it makes, with other threads running',
 'No test injects an exception into the middle of an operation; caches, temporary changes of global state and over-broad exception handlers misbehave only then.',
 ['quantities/quantity.py','quantities/dimensionality.py','quantities/umath.py','quantities/markup.py','quantities/registry.py','quantities/unitquantity.py','quantities/uncertainquantity.py'],
 [('no temporary mutation of operands or global settings','quantities/quantity.py, quantities/dimensionality.py, quantities/umath.py'),('exception handlers around attribute access','quantities/dimensionality.py _d_multiply, _d_divide'),('lock released on every exit','quantities/markup.py _Config')],None,['return value or exception of the faulted call','operands','later calls'])
p('C07','A failed in-place change never leaves a quantity torn',
 'When an in-place operation raises - augmented arithmetic, unit assignment, item assignment, put, fill, assigning real or imaginary parts, statistics into an output, or assigning an uncertainty - each element of the target still denotes its old or its new physical value under the units the target then reports, never a mixture of old numbers with new units or the reverse. If the reason is incompatible units, a non-uniform exponent, a protected view or unit, an unsuitable output or a read-only target, nothing changed at all, and other operands never change. The other reasons considered are dtype casting errors, trapped floating-point errors, failing element arithmetic and failing memory allocations.',
 ['fault_sequences','inputs','histories'],'every in-place operation, every dtype and layout, and every failure reason at every point where the array library or an element can fail',
 'The tests assert only that some invalid in-place calls raise; they never look at the target afterwards and never make the numeric library fail part way.',
 ['quantities/quantity.py','quantities/uncertainquantity.py','quantities/dimensionality.py'],
 [('units setter','quantities/quantity.py Quantity.units'),('augmented assignment','quantities/quantity.py __iadd__ .. __ipow__'),('item assignment, put, fill','quantities/quantity.py'),('reductions into out','quantities/quantity.py')],None,['target and operands after the exception'])
p('C08','Pickled quantities survive crash and restart exactly',
 'Anything written completely before a process crash - quantities of any shape, dtype and memory order, uncertain quantities, units, compound units, constants, dimensionalities and containers of them, at any pickle protocol - loads in a later process to an equal object: same values bit for bit, units, uncertainty, dtype, shape, class and rendering (up to the order of user-defined and compound units), and it combines with that process\'s own units as before the crash. This holds whatever the later process\'s hash seed, its settings, the units it has already defined and their order of definition, and over repeated generations and concurrent loading. An incomplete record raises, and neither it nor a record that conflicts with an existing definition changes the meaning of any existing label.',
 ['crash_points','histories','schedules','fault_sequences'],'all crash points while records are being written, torn and lost writes, any definition order and hash seed after restart, several generations, several threads loading and dumping',
 'The tests pickle four objects and load them in the same process, where every unit already exists; they never restart, never truncate a stream and never load units the process has not defined.',
 ['quantities/quantity.py','quantities/unitquantity.py','quantities/uncertainquantity.py','quantities/dimensionality.py','quantities/registry.py'],
 [('Quantity reduce/setstate','quantities/quantity.py'),('UnitQuantity reduce/getstate/setstate re-registering on load','quantities/unitquantity.py'),('UncertainQuantity reduce/setstate','quantities/uncertainquantity.py'),('unit hash by class and name','quantities/unitquantity.py __hash__')],None,['pickle.dumps','pickle.loads','objects after loading'])
p('C09','In-place changes and views behave as plain values; copies are independent',
 'An in-place arithmetic operation (augmented assignment) leaves its target equal in value and units to the corresponding ordinary operation, and converting in place changes the units but not the physical value. Every change made through a quantity or a view of it (slice, reshape, transpose) is seen by all of them as the same physical value, an operation that would change the units of a view is refused, and threads writing disjoint parts of one array never disturb one another. Copies, deep copies, conversions and arithmetic results share no storage with their sources: changing one never changes the other. Dimensionalities are values too: changing one in place changes no quantity, no unit and no other dimensionality.',
 ['histories','schedules','inputs'],'all histories of in-place operations, views, copies and conversions over a growing set of aliasing quantities, with several threads writing disjoint views',
 'The tests perform single in-place steps on fresh arrays; aliasing defects need a view or copy taken earlier and a change made later.',
 ['quantities/quantity.py','quantities/dimensionality.py'],
 [('units of a view are protected','quantities/quantity.py protected_multiplication, protected_power, units setter'),('unit update after in-place ufuncs','quantities/quantity.py __array_wrap__/__array_prepare__'),('copying','quantities/quantity.py __deepcopy__, rescale, astype')],None,['all live quantities after each step'])
p('C10','Units and constants are immutable',
 'No sequence of arithmetic, in-place operators, attribute assignment (units, real, imag), item assignment or mutating method calls on a unit or constant, on anything obtained from it (its definition, simplified form, units, dimensionality, magnitude, copies), or on the quantity it was defined from, in any thread and even when interrupted, changes what that unit denotes: its value of exactly one, size, name, symbol, rendering, definition, hash and what it pickles to. Attempts to modify it in place raise. Results of arithmetic on units are ordinary quantities that can be modified without affecting the unit.',
 ['histories','schedules','fault_sequences'],'all histories of attempted mutations of units, constants, and objects reachable from or used to build them, by several threads, with faults',
 'The tests try six in-place operators on one unit and check only that they raise.',
 ['quantities/unitquantity.py','quantities/quantity.py'],
 [('read-only storage','quantities/unitquantity.py UnitQuantity.__new__'),('protected in-place operators and units setter','quantities/unitquantity.py'),('reference conversion captured at definition','quantities/unitquantity.py _conv_ref')],None,['unit attributes, conversions and pickles after each attempt'])
p('C11','An uncertain quantity and its uncertainty stay in step',
 'Through any history of creation, arithmetic (+ - * / ** and their augmented forms), conversion, unit assignment, simplification, indexing, item assignment of the uncertainty, summary statistics, copying, deep copying and pickling, an uncertain quantity keeps an uncertainty of its own shape and units, and both keep their physical values under conversion and copying. A failed assignment of units or uncertainty, an interrupt during an operation that does not modify it, or concurrent use by several readers changes neither. Copies share neither values nor uncertainty with the original.',
 ['histories','schedules','fault_sequences'],'all histories of the listed operations on uncertain quantities of any shape and dtype, with failing assignments, faults and concurrent readers',
 'The tests check one operation at a time on fresh two-element arrays; unit assignment and copying of uncertain quantities are not tested at all.',
 ['quantities/uncertainquantity.py','quantities/quantity.py'],
 [('uncertainty setter and finaliser','quantities/uncertainquantity.py'),('units setter','quantities/uncertainquantity.py'),('rescale','quantities/uncertainquantity.py')],None,['value, uncertainty, units and shape after each step'])
p('C12','Concurrent use never blocks forever',
 'Under every interleaving, including threads that hold the public display-settings lock or are interrupted at any instant inside a library call, every operation of every other thread completes within a bounded number of steps once faults stop, and no lock stays held by a call that has ended. A thread holding the display-settings lock can itself render, switch the setting and use every other operation.',
 ['schedules','fault_sequences'],'all interleavings of all operations with interrupts at any instant and with users holding the display-settings lock re-entrantly',
 'Tests are single-threaded; a missing release, a lock-order inversion or a non-reentrant lock shows up only with a second thread or an interrupt.',
 ['quantities/markup.py','quantities/registry.py','quantities/unitquantity.py'],
 [('re-entrant lock around the unicode flag','quantities/markup.py _Config')],[('display-settings lock','public re-entrant lock','quantities/markup.py config.lock')],['completion of every call'])
p('C13','Conversion to preferred units is right under concurrent reconfiguration',
 'Converting to preferred units yields the same physical quantity in the first compatible unit of a preferred list that was in force at some moment of the call, and fails only if a list in force during the call holds no compatible unit. This does not depend on the default units, on the unicode setting, on what was converted before, or on how calls interleave with changes to any of these. A failed conversion changes nothing, and the result shares no storage with the source.',
 ['schedules','histories'],'all interleavings of preferred-unit conversions with replacement of the preferred list, default-unit changes, unicode switches and unit definitions',
 'The tests set one list, convert twice and reset it, single-threaded with SI defaults.',
 ['quantities/quantity.py','quantities/dimensionality.py','quantities/markup.py'],
 [('rescale_preferred','quantities/quantity.py'),('rescale without argument','quantities/quantity.py rescale')],[('preferred list','module-level list replaced by users','quantities/quantity.py PREFERRED')],['rescale()','rescale_preferred()'])
p('C14','An interrupted import can simply be repeated',
 'If importing the package is interrupted or fails at any instant (Ctrl-C, failing memory allocation, an error reading one of its files), importing it again in the same process either raises again because of a new fault or yields a fully working package: every unit, label, constant, default and operation as after an undisturbed import. This holds over any number of failed attempts, and when several threads import at once.',
 ['crash_points','fault_sequences','schedules'],'an exception at every executed line of the import and at every source read, repeated, followed by a fault-free import; several threads importing concurrently',
 'The test process imports the package once, successfully, before any test runs.',
 ['quantities/__init__.py','quantities/unitquantity.py','quantities/registry.py','quantities/quantity.py','quantities/units/__init__.py','quantities/constants/__init__.py'],
 [('module-level registration of classes, units and constants','quantities/unitquantity.py, quantities/units, quantities/constants'),('re-registration of an equal unit is accepted','quantities/registry.py')],[('label table','survives a failed import of a later module','quantities/registry.py')],['import quantities','registry contents after import'])
na=['inputs']
p('C20','Conversion between any two compatible units preserves the physical value',
 'For every pair of compatible units the library defines, converting a value there and back returns it up to rounding, conversion agrees with the published definitions of the units, and converting between incompatible units raises.',na,'all pairs of defined units and all magnitudes','Tests convert between a few pairs.',
 ['quantities/quantity.py','quantities/units'],[('get_conversion_factor','quantities/quantity.py')])
p('C21','Every supported ufunc and function enforces its unit rule',
 'Every numpy ufunc and wrapped function either returns the units its mathematics dictates or raises; none silently drops units or accepts operands whose units make the result meaningless.',na,'all functions and operand units','Tests use a few operands per function.',
 ['quantities/dimensionality.py','quantities/umath.py','quantities/quantity.py'],[('p_dict','quantities/dimensionality.py'),('wrapped functions','quantities/umath.py')])
p('C22','Unit strings are parsed faithfully and never execute code',
 'Any string is either parsed as an arithmetic expression of defined labels, giving exactly the units written, or rejected with an error; parsing never calls functions, reads attributes or has other effects, and the rendering of a unit parses back to it.',na,'all strings','One injection string is tested.',
 ['quantities/registry.py'],[('syntax-tree whitelist','quantities/registry.py')])
p('C23','Physical constants equal the published NIST values',
 'Every constant offered by the package has the value, uncertainty and units of the NIST table shipped with it, and the derived constant units agree with it.',na,'all entries of the table','No test reads the table.',
 ['quantities/constants/_codata.py','quantities/constants/NIST_codata.txt','setup.py'],[('generated table','setup.py data command'),('_cd','quantities/constants/_utils.py')])
p('C24','Uncertainty propagation follows the first-order formulas',
 'For independent operands the uncertainty of sums, differences, products, quotients, powers and means is the first-order propagated standard deviation, never negative, for all values including zero and negative ones.',na,'all values and uncertainties','Tests use positive two-element arrays.',
 ['quantities/uncertainquantity.py'],[('arithmetic methods','quantities/uncertainquantity.py')])
p('C25','Array semantics match numpy for dtype, shape and magnitude',
 'For every array method and function supported, the magnitude, dtype and shape of the result are those numpy gives for the magnitudes expressed in consistent units.',na,'all methods, dtypes, shapes, axes','Tests use one small array per method.',
 ['quantities/quantity.py','quantities/umath.py'],[('method overrides','quantities/quantity.py')])
p('C26','Dimensionality is a free abelian group with consistent equality and hashing',
 'Products, quotients and powers of dimensionalities obey the group laws with exact cancellation, and two dimensionalities are equal exactly when they hold the same units with the same powers.',na,'all dimensionalities and exponents','Tests use three dimensionalities.',
 ['quantities/dimensionality.py'],[('Dimensionality operators and __hash__','quantities/dimensionality.py')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import re
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    n=len(re.findall(r'[.](?:\s|$)',d['statement'])); 
    if n>3: print(d['id'],n)
