"""The properties and the manifest.  `python -m mc.spec` rewrites
properties.jsonl and MANIFEST.json."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=(),
         observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=["CHECLabPy/" + f for f in files],
            mechanism=[dict(name=n, where="CHECLabPy/" + w)
                       for n, w in mech],
            state=[dict(name=a, meaning=b, where="CHECLabPy/" + c)
                   for a, b, c in state],
            observe_at=list(observe), hook_needed=None),
        note=note))


prop("C01", "A written HDF5 file holds exactly what was appended, in order",
     "After any history of append, write, add_metadata and add_mapping calls "
     "of a writer session, every key of the file holds exactly the rows given "
     "to it since it was last replaced, in order, with the column names, "
     "dtypes and values that were given. The metadata of each key, the "
     "mapping, the recorded version and sizes are the last ones given, "
     "and the contents do not depend on when buffered rows were moved to the "
     "file, on what was at the path before or on what the caller does with "
     "a frame after giving it. The data frames and the dictionaries of the "
     "caller are not changed.",
     ["histories", "inputs"],
     "all histories of writer operations (2 tables, light and heavy frames, "
     "metadata, mapping), each starting from an absent, stale or foreign file",
     "the tests write one table once; buffering, several tables, replacing a "
     "key and the buffer spilling in between are never combined",
     ["core/io/hdf5_writer.py"],
     [("buffer of pending rows per key", "core/io/hdf5_writer.py append"),
      ("moving the buffer to the file", "core/io/hdf5_writer.py _append_to_file"),
      ("metadata kept until the end", "core/io/hdf5_writer.py finish")],
     "every history up to the depth, compared row by row with a list model",
     state=[("pending rows", "rows not yet in the file, by key",
             "core/io/hdf5_writer.py"),
            ("metadata", "dictionary by key, written at the end",
             "core/io/hdf5_writer.py")],
     observe=["HDF5Reader.read, get_metadata, get_mapping", "pandas.HDFStore"])

prop("C02", "Appending to an existing HDF5 file extends it and loses nothing",
     "A session of the appender on an existing file leaves every row and all "
     "metadata that were there, adds the rows given at the end of their key, "
     "and keeps the recorded sizes equal to the whole content. Splitting one "
     "history of appends over a writer session and any number of later "
     "appender sessions gives the same tables as a single session. Opening "
     "for append a path that does not exist is an error, and reading through "
     "an appender shows what the file holds.",
     ["histories"],
     "all histories split at every position into one writer and up to three "
     "appender sessions",
     "no test opens a file for appending at all",
     ["core/io/hdf5_appender.py", "core/io/hdf5_writer.py"],
     [("metadata and sizes read back", "core/io/hdf5_appender.py __init__"),
      ("append to the table in the file", "core/io/hdf5_writer.py append")],
     "every split of every history up to the depth",
     observe=["HDF5Reader", "pandas.HDFStore"])

prop("C03", "An error during writing loses no rows given before it",
     "If an exception leaves the body of a writer or appender context, it "
     "reaches the caller, and the file is closed, readable and holds every "
     "row and the metadata given before it. If moving rows to the file fails, "
     "the error is reported, and once the cause is gone finishing stores the "
     "rows that were given, none twice.",
     ["fault_sequences", "crash_points", "histories"],
     "an exception after every operation of every history; a failure of every "
     "single move of rows to the file",
     "no test makes a write fail or leaves the context with an exception",
     ["core/io/hdf5_writer.py"],
     [("finish on leaving the context", "core/io/hdf5_writer.py __exit__"),
      ("buffer emptied only after the move", "core/io/hdf5_writer.py "
       "_append_to_file")],
     "one fault per execution at every point of every history up to the "
     "depth; failures inside PyTables are all-or-nothing")

prop("C04", "Reading parts, columns or selections agrees with the whole table",
     "For any key, any start and stop, any choice of columns and any "
     "condition, reading returns exactly the rows and columns a reader of the "
     "whole table would select, in the same order. Iterating over the rows, "
     "or over chunks of any size, visits every row exactly once in order. The "
     "list of keys, column names, number of rows and sizes are those of the "
     "file; a table, mapping or metadata it does not have is a KeyError, and "
     "reading a table too large for memory is refused or warned about as "
     "documented.",
     ["inputs", "configurations"],
     "every start/stop pair, column subset, condition and chunk size on "
     "tables of up to 6 appended parts",
     "the tests read one small table from start to end",
     ["core/io/hdf5_reader.py", "core/io/dl1_reader.py"],
     [("selection", "core/io/hdf5_reader.py read/select_column(s)"),
      ("chunks", "core/io/hdf5_reader.py iterate_over_chunks")],
     "all requests of the stated finite set on real files")

prop("C05", "Events of a DL1 file are addressable by number, in any sequence",
     "Asking a DL1 file for an event returns exactly the rows of that "
     "event with all its pixels, and for a list of events the rows of "
     "those, in the order of the file, whatever was asked before and "
     "however the file was written; an event that is not in the file is an "
     "IndexError. Iterating visits every event once in order. The numbers "
     "of events, pixels, modules and rows, and the module serial numbers, "
     "temperatures, DACs and HV states per module and superpixel are those "
     "written, out of range ones an error, and the mapping and the monitor "
     "values matched to the events are those of the file.",
     ["inputs", "histories"],
     "all orders of event numbers, sequences of accesses, camera layouts and "
     "monitor tables within the bounds",
     "the tests open one file and read its first event",
     ["core/io/dl1_reader.py"],
     [("event to row", "core/io/dl1_reader.py __getitem__/get_event"),
      ("monitor tables", "core/io/dl1_reader.py monitor")],
     "every access sequence up to the depth on files of every small layout")

prop("C06", "Waveform readers index, slice and iterate consistently",
     "The event at any index, negative ones included, in any slice or list of "
     "indices, is the same event that iterating over the reader yields at "
     "that position, with its own samples, time, cell identifier and flags, "
     "whatever was accessed before and with several iterations under way. "
     "The length respects the limit on events, each index outside raises "
     "IndexError, and events already obtained do not change when others are "
     "read.",
     ["inputs", "histories"],
     "all small files, limits, indices, slices, lists and access sequences, "
     "for R0, R1 and simulated files",
     "the tests need TargetIO and sample files which are not there; index "
     "arithmetic with skipped events is never exercised",
     ["core/io/waveform.py", "core/io/tio.py", "core/io/simtel.py"],
     [("indexing", "core/io/waveform.py __getitem__"),
      ("skipped events", "core/io/tio.py _get_event")],
     "exhaustive over the stated indices and sequences; TargetIO is a "
     "stand-in of its interface")

prop("C07", "A file is opened by the reader made for it",
     "Choosing a reader from a path returns the reader class for the content "
     "of the file (TargetIO R0 or R1, sim_telarray, also compressed), with "
     "the limit on events passed on, independent of the file's name. A file "
     "of another kind is never opened as something else, the readers of one "
     "level refuse files of the other, and a missing file is an error; "
     "probing a file does not change it.",
     ["inputs", "configurations"],
     "every kind of content x file name x way of opening it",
     "the tests have no files of the other kinds",
     ["core/io/waveform.py", "core/io/tio.py", "core/io/simtel.py"],
     [("probing", "core/io/tio.py and simtel.py is_compatible"),
      ("choice", "core/io/waveform.py WaveformReader.from_path")],
     "all combinations of the stated kinds")

prop("C08", "Waveforms keep their event's metadata and simulation truth",
     "A waveform array keeps its event number, level, cell identifier, times, "
     "flags and the true values of the simulation through slicing, copying, "
     "arithmetic and type conversion, and never takes those of another "
     "event. Times built from seconds and nanoseconds are exact to the "
     "nanosecond.",
     ["histories", "inputs"],
     "every sequence of array operations up to the depth, on R0, R1 and "
     "simulated waveforms",
     "no test looks at the metadata of derived arrays",
     ["core/io/waveform.py", "core/io/simtel.py", "core/io/tio.py"],
     [("attributes of derived arrays", "core/io/waveform.py "
       "__array_finalize__"), ("time", "core/io/waveform.py t_cpu")],
     "every sequence of the alphabet up to the depth")

prop("C09", "A chain computes exactly the columns that are switched on",
     "For any configuration from defaults, a YAML file and keyword arguments, "
     "in this order of precedence, a reducer or the chain returns exactly the "
     "columns that are switched on, and a reducer with none is left out. "
     "Settings such as window size and shift reach the reducers that use "
     "them, a missing requirement is reported, and a new reducer class is "
     "picked up while a second column of the same name is refused.",
     ["configurations"],
     "every subset of the columns of every reducer, every pair across "
     "reducers, every combination of sources",
     "the tests switch single columns of toy reducers",
     ["core/reducer.py", "core/chain.py", "core/factory.py"],
     [("active columns", "core/reducer.py get_active_columns"),
      ("precedence", "core/chain.py WaveformReducerChain.__init__")],
     "exhaustive over the subsets and combinations stated")

prop("C10", "The result of a reducer depends only on the event given to it",
     "Processing an event with a reducer or the chain gives the same values "
     "whatever events were processed before, whichever other columns or "
     "instances are in use, and however the calls interleave. The waveforms "
     "given are not changed, and results obtained earlier do not change "
     "later.",
     ["histories", "schedules"],
     "all histories of events on one instance and all interleavings of two "
     "instances",
     "the tests process one event per reducer instance",
     ["core/reducer.py", "waveform_reducers/"],
     [("state per event", "core/reducer.py process/_prepare"),
      ("windows per event", "waveform_reducers/")],
     "every history and interleaving up to the depth, against a fresh "
     "instance per event",
     state=[("prepared arrays", "waveforms and windows of the current event",
             "core/reducer.py, waveform_reducers/")])

prop("C11", "Baseline, integration and saturation columns equal their meaning",
     "Baseline, mean, rms and maximum columns are those statistics of the "
     "stated samples of each pixel (the first or last 20 samples, or all). "
     "A charge is the sum of the samples of the window [peak - shift, peak "
     "- shift + size) cut at the ends of the waveform, with the peak taken "
     "from the average waveform (kept at least 10 samples from the ends), "
     "the given extraction time, the pixel itself or its neighbours as the "
     "reducer states; sliding windows start where the sum of the window is "
     "largest. The saturation, superpixel and flasher columns are what "
     "they document, for pulses anywhere in the waveform, any window, and "
     "independent of other pixels where the method is local.",
     ["inputs", "configurations"],
     "pulses at every sample x window sizes x shifts x extraction times x "
     "number types and pixel counts",
     "the tests check the shape of the result and a few sums of constants",
     ["waveform_reducers/common.py", "waveform_reducers/average_wf.py",
      "waveform_reducers/sliding_window.py", "waveform_reducers/saturation.py",
      "waveform_reducers/ctapipe_integrators.py",
      "waveform_reducers/superpixel.py",
      "waveform_reducers/flag_flasher.py"],
     [("window integration", "waveform_reducers/average_wf.py _prepare, "
       "sliding_window.py"), ("statistics", "waveform_reducers/common.py")],
     "all positions and windows of the bound against a plain re-computation")

prop("C12", "Cross correlation recovers the amplitude and time of pulses",
     "For a waveform holding the reference pulse with amplitude A at a time t, "
     "the cross-correlation columns give t to within a sample, a charge "
     "proportional to A and the height A, with the peak searched in the "
     "average, the pixel or its neighbours as the reducer states. The values "
     "are those of the correlation with the reference pulse at the peak, "
     "also for noise, several pulses and peaks at the ends.",
     ["inputs"],
     "a reference pulse at every sample x amplitudes, pairs of pulses, noise, "
     "ends, lengths and types",
     "the tests compare one waveform with stored numbers",
     ["waveform_reducers/cross_correlation.py"],
     [("reference pulse and its normalisation",
       "waveform_reducers/cross_correlation.py _load_reference_pulse"),
      ("peak and time", "waveform_reducers/cross_correlation.py")],
     "all pulse positions of the bound against direct correlation sums")

prop("C13", "Pulse timing columns are the interpolated crossings of the pulse",
     "The pulse time and amplitude of a pixel are those of the parabola "
     "through the highest sample of the search window and its two "
     "neighbours, the amplitude above the mean of its first 10 samples. "
     "Width and rise time are the distances between the linearly "
     "interpolated crossings, nearest to the peak, of 50%, and of 10% and "
     "90%, of that amplitude, NaN without a crossing; all are zero for a "
     "pixel without a peak. The event time, around which the window of the "
     "given size and shift is placed, is the peak sample of the average "
     "waveform kept 10 samples from the ends (or the given extraction "
     "time), and each pixel's result depends on its own samples and that "
     "window only, for a pulse anywhere in the waveform.",
     ["inputs", "configurations"],
     "every sample position of several pulse shapes, every 5-sample shape "
     "over 4 levels, windows and extraction times",
     "the tests check one waveform",
     ["waveform_reducers/timing.py"],
     [("search and interpolation", "waveform_reducers/timing.py "
       "obtain_pulse_timing"), ("event time", "waveform_reducers/timing.py")],
     "all shapes and positions of the bound against a separate "
     "implementation; ill-conditioned pixels are not compared")

prop("C14", "extract_dl1 writes every good event once, in order, complete",
     "Running the extraction over waveform files gives for each file one "
     "DL1 file with one row per pixel of every event that is neither stale "
     "nor missing packets, in order, with the event's number, times, cell "
     "identifiers, baseline and the columns of the chain for the time- "
     "corrected, baseline-subtracted waveforms, and for simulations the "
     "true charges and the table of simulated events. The numbers of "
     "processed and skipped events, the times of the first and last event, "
     "the reader's camera and module information and the chain's "
     "configuration are in the metadata. Event limits, output paths and "
     "configuration files are honoured, the waveform files stay as they "
     "were, and nothing depends on when rows are moved to the file.",
     ["inputs", "configurations", "histories"],
     "every pattern of good, stale and incomplete events in small runs x "
     "buffer moves x options",
     "the script is not tested",
     ["scripts/extract_dl1.py", "core/io/hdf5_writer.py"],
     [("loop over events", "scripts/extract_dl1.py main"),
      ("rows per event", "scripts/extract_dl1.py, core/io/hdf5_writer.py "
       "DL1Writer")],
     "all patterns of small runs end to end; input libraries are stand-ins")

prop("C15", "The subtracted baseline is the mean of the last events",
     "After any number of events the baseline of a pixel is the mean of the "
     "first samples of its last n events, the events at the start of the "
     "source standing in until n have been seen. Subtracting returns the "
     "waveforms minus exactly that baseline without changing the input, "
     "baselines obtained earlier or other instances, also for sources with "
     "fewer than n events.",
     ["histories", "schedules"],
     "all short sources, windows and histories of events; interleavings of "
     "two instances",
     "not tested",
     ["utils/waveform.py"],
     [("ring of the last events", "utils/waveform.py BaselineSubtractor")],
     "all histories of the bound against a list of the last n events",
     state=[("ring", "first samples of the last n events",
             "utils/waveform.py")])

prop("C16", "Shifting, averaging and dead-pixel search follow their definition",
     "Shifting a waveform moves every sample by the stated amount and fills "
     "the rest; aligned averages put the peak of each contribution on the "
     "same sample, per pixel and per event. The dead pixels reported are "
     "exactly those whose average amplitude lies below the threshold in the "
     "events looked at.",
     ["inputs"],
     "all lengths, shifts, fills, types, peak positions and sets of dead "
     "pixels of the bounds",
     "not tested",
     ["utils/waveform.py"],
     [("shift", "utils/waveform.py shift_waveform"),
      ("averages", "utils/waveform.py get_average_wf*"),
      ("dead pixels", "utils/waveform.py obtain_dead_pixel_list_r1")],
     "exhaustive over small inputs against definitions")

prop("C17", "Time correction delays each pixel by its own correction",
     "Correcting waveforms delays each pixel by its own correction: the "
     "value at a sample is the waveform at (sample - correction), linearly "
     "interpolated between samples, exact for whole samples, and beyond "
     "the ends the straight line through the first two or last two "
     "samples. The input and other pixels are left untouched, the type of "
     "the samples is kept, and the correction applied is the one stored "
     "for the pixel of the camera.",
     ["inputs"],
     "every correction in fine steps x lengths x pulses at every sample",
     "not tested",
     ["calib/time_calibrator.py"],
     [("interpolation", "calib/time_calibrator.py apply_t_cor"),
      ("corrections", "calib/time_calibrator.py TimeCalibrator")],
     "all stated corrections and samples against linear interpolation")

prop("C18", "Amplitude matching converges to the best DAC of each superpixel",
     "For each superpixel whose amplitude responds monotonically to its "
     "DAC, the iteration ends after finitely many steps with the DAC whose "
     "measured amplitude is closest to the aim among those tried, and "
     "superpixels do not influence each other. The steps go from 10 over 5 "
     "to 1 and the direction follows the amplitude, averaged over the "
     "events and the four pixels after calibration and unfolding. Every "
     "DAC proposed stays in the range 10 to 255, and superpixels whose HV "
     "is bad are set to 255 and take no part.",
     ["histories", "inputs"],
     "every sequence of responses up to the depth, every optimum, starting "
     "value and mask of the bounds",
     "not tested",
     ["calib/amplitude_matcher.py"],
     [("next DAC", "calib/amplitude_matcher.py process"),
      ("finished", "calib/amplitude_matcher.py finish")],
     "all response histories of the bound with a model of each superpixel",
     state=[("best and last DAC, direction", "per superpixel",
             "calib/amplitude_matcher.py")])

prop("C19", "Pixel masks survive commit, load, merge and restart unchanged",
     "A mask that is committed is found again as the latest, with the same "
     "dead, low and bad-HV pixels, also after a restart, and earlier masks "
     "stay available, whenever and however often masks are committed. Merging is the union, pixel and superpixel views agree, "
     "and without a path the newest shipped mask is used.",
     ["histories"],
     "every history of load, merge, change, commit and restart up to the "
     "depth",
     "not tested",
     ["calib/pixel_masks.py"],
     [("latest mask", "calib/pixel_masks.py __init__"),
      ("file", "calib/pixel_masks.py commit/load"),
      ("superpixels", "calib/pixel_masks.py")],
     "every history up to the depth on a scratch copy of the package")

prop("C20", "Calibration and data-sheet values are applied to the right pixel",
     "The amplitude calibration converts a charge with the coefficients of "
     "its own pixel, whatever selection and order of pixels is asked for; "
     "the illumination profile unfolds and folds each pixel with its own "
     "stored correction, and the sensor's data sheet gives the stored "
     "values, linearly interpolated between rows, from whichever single "
     "quantity is given. Calibrating R0 waveforms applies the pedestal of "
     "the event's cells, returns R1 waveforms of the same event and leaves "
     "the R0 waveforms as they were.",
     ["inputs"],
     "every selection of pixels of the bound, every row and position between "
     "rows, first cell ids",
     "not tested",
     ["calib/amplitude_calibrator.py", "calib/illumination_profile.py",
      "calib/sipm_data_sheet.py", "calib/waveform.py"],
     [("coefficients per pixel", "calib/amplitude_calibrator.py"),
      ("interpolation", "calib/sipm_data_sheet.py"),
      ("R0 to R1", "calib/waveform.py")],
     "all stated selections and positions")

prop("C21", "Spectrum fit settings are those given last",
     "After any sequence of loading configuration files, changing parameters, "
     "updating initial values, fitting, and saving and loading results, the "
     "settings used by the next fit are those given last for each parameter, "
     "and the rest keeps its value. Parameters that differ between "
     "illuminations are numbered per illumination with their own values, "
     "limits and fixed state, and two fitters do not share settings.",
     ["histories", "configurations"],
     "every history of configuration operations up to the depth",
     "the tests load one configuration",
     ["core/spectrum_fitter.py"],
     [("parameters", "core/spectrum_fitter.py SpectrumParameter(s)"),
      ("load_config", "core/spectrum_fitter.py")],
     "every history up to the depth against a dictionary model",
     state=[("parameters", "initial, limits, fixed, multi",
             "core/spectrum_fitter.py")])

prop("C22", "A spectrum fit depends only on its charges and its settings",
     "The histogram of a fit counts every charge inside the range once in its "
     "bin; fitted values stay inside their limits and fixed ones do not move, "
     "for any number and order of illuminations. Fitting again with the same "
     "charges gives the same result whatever was fitted before, and the "
     "charges are not changed.",
     ["histories", "inputs"],
     "all small sets of charges, histories of fits, combinations of limits "
     "and fixed parameters",
     "the tests fit one generated spectrum",
     ["core/spectrum_fitter.py", "spectrum_fitters/"],
     [("histogram", "core/spectrum_fitter.py apply"),
      ("fit", "core/spectrum_fitter.py _perform_fit")],
     "all charges, histories and settings of the bound; the minimiser is "
     "iminuit itself")

prop("C23", "Spectrum models are proper distributions with the stated moments",
     "For any admissible parameters each single-photoelectron model is a "
     "non-negative density of integral one: the sum over n of normal peaks "
     "at pedestal + n gain, with the width of the pedestal and n "
     "photoelectrons combined and the documented (Poisson, with crosstalk "
     "branching for the SiPM) weights, neglecting only weights below 1e-4, "
     "so that its mean is the one its parameters imply. Its value at a "
     "charge does not depend on the other charges, and each illumination "
     "has its own mean number of photoelectrons while sharing the other "
     "parameters. The likelihood minimised by a fit is -2 log of the Poisson "
     "probability of the counts, for the spectrum scaled to their area.",
     ["inputs"],
     "grids of parameters x charges",
     "the tests compare a few values",
     ["spectrum_fitters/gentile.py", "spectrum_fitters/mapm.py",
      "stats/pdf.py"],
     [("pdf", "spectrum_fitters/gentile.py, mapm.py")],
     "all points of the grids against independent sums, to the stated "
     "tolerance")

prop("C24", "extract_spe gives the serial result under every schedule",
     "Extracting the spectra with any number of processes writes, for every "
     "schedule of the workers, the same values, errors and arrays for each "
     "pixel, in pixel order, as a serial run, with no pixel missing, repeated "
     "or exchanged. The metadata name the files, the fitter and its settings, "
     "and a failing pixel is reported and leaves the others intact. plot_spe "
     "draws each parameter, error and spectrum of that file at its pixel.",
     ["schedules", "configurations"],
     "every schedule of the workers' steps up to the preemption bound, "
     "process counts, chunks and numbers of files",
     "the script is not tested, and one run shows one schedule",
     ["scripts/extract_spe.py", "core/spectrum_fitter.py"],
     [("shared results", "scripts/extract_spe.py SpectrumFitterManager"),
      ("ordering", "scripts/extract_spe.py")],
     "all schedules within the preemption bound under a controlled scheduler "
     "of forked workers",
     state=[("results by pixel", "shared between processes",
             "scripts/extract_spe.py")])

prop("C25", "Charge resolution does not depend on batches, order or memory",
     "However the charges are cut into batches, in any order, and whenever "
     "the buffers are reduced to save memory, the resolution (relative and "
     "absolute), mean, standard deviation and counts per pixel and for the "
     "camera are those of the definition over all entries. Finishing in "
     "between changes nothing, and what is plotted for a pixel is its own "
     "result.",
     ["histories", "inputs"],
     "every cut of the entries into batches x pattern of reductions x order",
     "not tested",
     ["utils/resolutions.py", "plotting/resolutions.py"],
     [("sums by pixel and true charge", "utils/resolutions.py add/_add_to_"
       "dataframe"), ("finish", "utils/resolutions.py")],
     "all cuts, orders and patterns of the bound",
     state=[("buffers", "partial sums by pixel and true charge",
             "utils/resolutions.py")])

prop("C26", "Running statistics and probability functions are accurate",
     "Updating mean and variance sample by sample gives those of all samples, "
     "for scalars and per pixel, whatever their order and offset. The "
     "Poisson, binomial and normal functions return the probabilities of "
     "their definition, also for large arguments.",
     ["histories", "inputs"],
     "every history of samples up to the length, all arguments of the grids",
     "the tests compare a handful of values",
     ["stats/welfords.py", "stats/pdf.py"],
     [("update", "stats/welfords.py"), ("functions", "stats/pdf.py")],
     "every history of the bound against exact fractions")

prop("C27", "Mappings place every pixel, superpixel and module correctly",
     "Converting a mapping between its forms and back keeps every pixel, its "
     "position and the camera's description; the superpixel and module "
     "mappings have one entry per superpixel or module, at the centre, row "
     "and column of its pixels, in ascending order, for any selection of "
     "modules and order of rows. Rows and columns found from positions are "
     "those of the grid for every rectangular arrangement, order and origin. "
     "The mapping given is not changed.",
     ["inputs", "configurations"],
     "selections of modules x orders; all small grids, with missing pixels",
     "not tested",
     ["utils/mapping.py"],
     [("grouping", "utils/mapping.py get_superpixel_mapping, get_tm_mapping"),
      ("grid", "utils/mapping.py get_row_column")],
     "exhaustive over selections, orders and grids of the bounds")

prop("C28", "Plots show the values given, at the place of their pixel",
     "After any sequence of setting images, limits, highlights, texts and "
     "colour bars, a camera image shows each value of the last image at its "
     "own pixel, invalid values hidden, with the limits in force, and an "
     "image of the wrong size is refused. Labels and waveforms appear at the "
     "module or pixel they belong to, highlighting marks exactly the pixels "
     "named and can be undone, and saving creates the file and closes the "
     "figure.",
     ["histories", "inputs"],
     "every sequence of image operations up to the depth, all subsets of "
     "highlighted pixels",
     "not tested",
     ["plotting/camera.py", "plotting/waveform.py", "plotting/spe.py",
      "plotting/setup.py"],
     [("image", "plotting/camera.py image setter"),
      ("labels", "plotting/camera.py annotate_*"),
      ("waveform grids", "plotting/waveform.py")],
     "every sequence up to the depth, observed on the figure's artists")

prop("C29", "File utilities find, order and read files as documented",
     "Creating a directory succeeds and keeps its content, also when another "
     "process creates it or a parent at any moment in between. Lists of names "
     "are sorted by their text and by the value of the numbers in them, "
     "whatever their order before. Run lists give each run its own "
     "parameters and the file beside the list, and HV files give the last "
     "setting of each superpixel of each module.",
     ["schedules", "inputs"],
     "every interleaving with another process creating parents; all small "
     "lists of names, run lists and HV lines",
     "not tested",
     ["utils/files.py"],
     [("directory", "utils/files.py create_directory"),
      ("order", "utils/files.py natural_keys, sort_file_list"),
      ("run lists", "utils/files.py open_runlist_*"),
      ("HV", "utils/files.py extract_hv_cfg")],
     "all interleavings at the level of file system calls, all lists of the "
     "bound")

prop("C30", "The generated configuration lists every column with its default",
     "The configuration file generated holds every column of every known "
     "reducer exactly once, below its reducer, with its default, with or "
     "without documentation and for reducers added by the user. Used "
     "unchanged it selects the default columns, and switching any entries "
     "selects exactly those.",
     ["configurations"],
     "both forms, added reducers, every single column and pair switched",
     "the script is not tested",
     ["scripts/generate_dl1_config.py", "core/chain.py"],
     [("writing", "scripts/generate_dl1_config.py main")],
     "all single and paired settings through the real script and chain")


NOT_APPLICABLE = []


def main():
    sys.path.insert(0, os.path.join(VERIF, "mc", "env"))
    sys.path.insert(0, "/repo")
    checks = []
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            d = {k: v for k, v in p.items() if k != "note"}
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
            c = importlib.import_module("mc.checks." + p["id"].lower()).CHECK
            tech = {
                "model_checking": "stateless model checking of the "
                "implementation: exhaustive bounded histories against a "
                "reference model",
                "exploration": "exhaustive bounded enumeration of executions "
                "of the implementation against an independent definition",
                "fault_enumeration": "exhaustive single-fault enumeration "
                "over all bounded histories"}[c.level]
            if p["id"] == "C24":
                tech = ("stateless exploration of all worker schedules up to "
                        "a preemption bound (controlled scheduler)")
            checks.append(dict(
                property=p["id"], quick_cmd="bash run.sh " + p["id"],
                thorough_cmd="bash run.sh %s --thorough" % p["id"],
                technique=tech, level=c.level,
                level_note="%s. Quick bounds: %s. Assumes: %s." % (
                    p["note"], " ".join(c.bounds["quick"].split()),
                    "; ".join(c.assumptions) or "nothing beyond the bounds")))
    out = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
               not_applicable=NOT_APPLICABLE,
               notes="No hooks in /repo: the checks drive the public API and "
               "replace environment calls from outside.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


def design():
    """DESIGN.md: the written parts in doc/ and one section per property"""
    out = []
    for p in P:
        c = importlib.import_module("mc.checks." + p["id"].lower()).CHECK
        out.append(
            "### %s  %s (%s)\n\n%s\n\n- Oracle and search: %s.\n"
            "- Quick bounds: %s.\n- Thorough: %s.\n- Assumes: %s.\n"
            "- Why tests cannot: %s.\n\n" % (
                p["id"], p["title"], c.level, p["statement"], p["note"],
                " ".join(c.bounds["quick"].split()),
                " ".join(c.bounds["thorough"].split()),
                "; ".join(c.assumptions) or "nothing beyond the bounds",
                p["why_tests_cant"]))
    doc = os.path.join(VERIF, "doc")
    text = open(os.path.join(doc, "head.md")).read() + "".join(out)
    for name in ("tail.md", "seeded.md"):
        path = os.path.join(doc, name)
        if os.path.exists(path):
            text += open(path).read()
    with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
    design()
