#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with checks by tools/selfcheck.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("P01", "A lock file is held by at most one process, and is never lost or leaked",
     "When any number of processes try to take the same lock file, at most one of them is told it holds the lock until that lock file is removed, and a process that is told it does not hold the lock has not created it. "
     "A non-blocking attempt answers without waiting; a blocking attempt keeps trying, acquires the lock as soon as a try finds it free, and gives up (reporting failure) only after the requested number of tries spaced by the requested wait. "
     "No attempt, successful or not, leaves any file other than the lock itself behind, and a failed or crashed contender never removes or alters a lock held by someone else.",
     ["schedules", "crash_points", "fault_sequences"], "every interleaving of contenders, every kill point inside an attempt, every hold time and retry setting",
     "No test calls the lock concurrently; the galaxy-ingest test takes it uncontended from one process.",
     ["redmapper/utilities.py", "redmapper/galaxy.py", "redmapper/pipeline/zredtask.py"],
     [("hard-link based atomic lock creation", "redmapper/utilities.py:make_lockfile")])

prop("P02", "Parallel galaxy ingest stores every accepted galaxy exactly once",
     "For any number of writer processes ingesting galaxies into the same catalog in parallel mode, under any interleaving, every galaxy handed to a completed append that lies inside the survey mask is stored exactly once, unaltered, in the file of the sky pixel that contains it, and nothing else is stored. "
     "A single serial writer appending the same galaxies in any number of batches produces the same content. "
     "No lock file is left behind by writers that finish, and a writer that cannot get a pixel's lock or hits an I/O error raises instead of dropping galaxies; a writer killed during an append can damage at most the one pixel file it holds the lock of, which then stays locked.",
     ["schedules", "inputs", "fault_sequences"], "all writer counts, batch splits, interleavings at file-operation granularity, I/O errors and stalls",
     "The parallel test runs two makers one after the other in one process, never concurrently, and compares totals for one input.",
     ["redmapper/galaxy.py", "redmapper/utilities.py"],
     [("per-pixel lock around create-or-append", "redmapper/galaxy.py:GalaxyCatalogMaker.append_galaxies"), ("make_lockfile", "redmapper/utilities.py")])

prop("P03", "A galaxy master table, once visible, is complete, accurate and has unique ids",
     "Whenever a galaxy catalog's master table exists, it lists exactly the non-empty pixel files with their true sky pixel, row count, file name and coordinates plus the survey information supplied, and galaxy ids are unique across the whole catalog (freshly numbered when that was requested). "
     "Any number of processes may finalize at once, crash while finalizing and finalize again: the surviving result is the same as that of one undisturbed finalization, and galaxy contents other than requested ids never change. "
     "A catalog whose ids are not unique is refused with an error rather than published, and no galaxies can be added once the master table exists.",
     ["schedules", "crash_points", "inputs"], "all interleavings of concurrent finalizers, all kill points during finalization, all output paths and id assignments",
     "Tests finalize once, uninterrupted, from one process, in a directory with a random short name.",
     ["redmapper/galaxy.py", "redmapper/randoms.py"],
     [("finalize lock and pixel-file census", "redmapper/galaxy.py:GalaxyCatalogMaker.finalize_catalog"), ("id uniqueness check / renumbering", "redmapper/galaxy.py:GalaxyCatalogMaker.finalize_catalog")])

prop("P04", "Region reads return exactly the region's galaxies, on every read path",
     "Reading a pixelized galaxy catalog for a set of sky pixels (with an optional border) returns every galaxy inside those pixels exactly once with its own redshift information on the same row, every galaxy within the border distance (to the accuracy of the pixel outline, about 0.1 deg) of a single requested pixel, and nothing from pixels neither requested nor bordering; jobs that split the sky into disjoint pixels therefore see every galaxy exactly once. "
     "The memory-saving temporary-file path returns the same galaxies as the direct path followed by the same magnitude and chi-squared cuts, and leaves no temporary file behind when it succeeds. "
     "If any needed file cannot be read, or holds a different number of rows than its table says, the read raises rather than returning a partial or misaligned catalog (galaxy pixels that have no redshift file at all are left out whole when redshifts are requested).",
     ["inputs", "configurations", "fault_sequences", "schedules"], "all pixelizations, regions, borders, cuts, concurrent readers, and read/temporary-space faults at any operation",
     "Tests read four fixed regions of one catalog on a healthy disk, mostly on one path.",
     ["redmapper/galaxy.py"],
     [("pixel selection", "redmapper/galaxy.py:get_subpixel_indices"), ("border trimming and tempfile spooling", "redmapper/galaxy.py:GalaxyCatalog.from_galfile")])

prop("P05", "Zreds do not depend on workers, chunking or schedule, and stay row-aligned",
     "Computing galaxy redshifts for a catalog file or for a pixelized catalog gives, for every galaxy row, the same values (apart from the randomly sampled redshift) whatever the number of worker processes, the chunk size, the order in which workers finish or which worker gets which piece, and equal to computing them in one go in one process. "
     "Every input row gets exactly one output row at the same position, the pixelized output has one file per requested galaxy pixel with matching length, and its master table lists exactly those. "
     "If a worker fails, the run raises and publishes no output table.",
     ["schedules", "configurations", "inputs", "fault_sequences"], "all worker counts, chunk sizes (including catalogs smaller than the worker count), task assignments and completion orders",
     "Tests run with two workers on one file and spot-check three values.",
     ["redmapper/zred_runner.py", "redmapper/zred_color.py"],
     [("chunking and reassembly", "redmapper/zred_runner.py:ZredRunCatalog.run"), ("per-pixel worker and table check", "redmapper/zred_runner.py:ZredRunPixels")])

prop("P06", "Distributed zred jobs publish the zred table only when it is complete",
     "When independent jobs each compute the zreds of some sky pixels, the zred master table appears only when every galaxy pixel has a complete zred file with the right rows and no job is still writing one, and it then lists every galaxy pixel in galaxy-table order with true row counts. "
     "Once all jobs have finished without a fault the table exists, whatever the order or overlap in which they ran, and no lock file remains. "
     "Two jobs never write the same pixels at the same time; after crashes, clearing the dead jobs' locks and rerunning them yields the same files as an undisturbed run.",
     ["schedules", "crash_points", "fault_sequences"], "all job counts, interleavings, duplicated jobs, kill points and restarts",
     "The distributed zred task has no test at all.",
     ["redmapper/pipeline/zredtask.py", "redmapper/zred_runner.py", "redmapper/utilities.py"],
     [("per-pixel write lock, consolidation lock and census", "redmapper/pipeline/zredtask.py:RunZredPixelTask.run"), ("length verification", "redmapper/zred_runner.py:ZredRunPixels.make_zred_table")])

prop("P07", "A multiprocess cluster run does not depend on scheduling or worker count",
     "For a given sky split and given Monte-Carlo draws, the catalogs of a multiprocess cluster-finder run (per pixel and consolidated, clusters and members) are the same for every number of workers, assignment of pixels to workers and completion order, for the full run and for the percolation-only run. "
     "Work on one pixel never reads or alters the settings, inputs or outputs of another pixel, and the caller's configuration is unchanged afterwards. "
     "The split covers every sky pixel holding requested galaxies exactly once, and a pixel yielding no clusters does not affect the others.",
     ["schedules", "configurations"], "all worker counts, assignments, completion orders and sky splits (fixed random draws)",
     "The only test that runs the multiprocess driver fails in this environment, and it uses one pixel and one schedule.",
     ["redmapper/redmapper_run.py", "redmapper/configuration.py", "redmapper/cluster_runner.py"],
     [("pool map over pixels", "redmapper/redmapper_run.py:RedmapperRun.run"), ("per-task configuration copies", "redmapper/configuration.py:Configuration.copy")])

prop("P08", "An interrupted cluster run resumes to the same catalogs",
     "If a multiprocess cluster-finder run is killed at any moment, any number of times, and started again with existing-file checking on, it completes and its final, member and likelihood catalogs equal those of an uninterrupted run with the same Monte-Carlo draws. "
     "Work whose output file is already present is not redone, and a file left incomplete by the kill is never taken for a finished product. "
     "With checking off, everything is recomputed and replaced.",
     ["crash_points", "fault_sequences", "histories"], "all kill points (inside any file write, between any two operations), repeated kills, and write errors such as a full disk",
     "No test kills or resumes a run.",
     ["redmapper/redmapper_run.py", "redmapper/cluster_runner.py", "redmapper/catalog.py"],
     [("skip-if-present stage checks", "redmapper/redmapper_run.py:RedmapperRun._worker"), ("catalog/member output order", "redmapper/cluster_runner.py:ClusterRunner.output"), ("table writing", "redmapper/catalog.py:DataObject.to_fits_file")])

prop("P09", "Distributed pixel jobs can be killed and rerun, and do not disturb each other",
     "A single-pixel job of a distributed run (cluster finding, richness on a given catalog, redshift scan, random z-mask) that is killed at any moment and rerun completes with the same output files as an uninterrupted job with the same Monte-Carlo draws, reusing finished stages and never mistaking an incomplete file for a finished one. "
     "Rerunning a finished job leaves its outputs unchanged. "
     "Jobs for different pixels running at the same time produce exactly what they would produce alone.",
     ["crash_points", "schedules", "fault_sequences", "histories"], "all kill points, rerun histories and interleavings of jobs for different pixels",
     "The distributed pixel tasks have no tests at all.",
     ["redmapper/pipeline/redmappertask.py", "redmapper/cluster_runner.py", "redmapper/catalog.py"],
     [("skip-if-present stages", "redmapper/pipeline/redmappertask.py"), ("output order", "redmapper/cluster_runner.py:ClusterRunner.output")])

prop("P10", "Consolidation keeps each qualifying cluster once, with exactly its members",
     "Consolidating per-pixel catalogs yields, for every richness cut and volume limit, exactly the clusters that lie in the pixel their file was run for and pass the mask-fraction, richness and redshift-limit cuts, each once and with its columns unaltered, together with exactly the members of those clusters. "
     "Cluster ids are unique, number clusters by decreasing likelihood (consistently across all cuts), and every member carries the id of its own cluster. "
     "The result does not depend on the order in which pixel files were produced or are listed, nor on the directory they live in, and pixels or cuts with no surviving cluster do not prevent or alter the rest.",
     ["inputs", "histories", "configurations", "schedules"], "all sets of pixel catalogs (overlapping borders, empty survivors, colliding ids), cuts, listing orders and directory names",
     "One test consolidates two fixed pixel files and compares sizes and a few values.",
     ["redmapper/pipeline/redmapperconsolidatetask.py", "redmapper/redmapper_run.py", "redmapper/utilities.py"],
     [("per-pixel cuts, spooling and renumbering", "redmapper/pipeline/redmapperconsolidatetask.py"), ("multiprocess consolidation", "redmapper/redmapper_run.py:RedmapperRun._consolidate")])

prop("P11", "Interrupting or repeating a consolidation never duplicates or loses rows",
     "If consolidation is killed or hits a write error at any moment and is run again, the final catalogs and member lists equal those of one uninterrupted consolidation. "
     "Running it again on the same inputs reproduces the same result, and a failed write is reported instead of leaving a shortened catalog behind a successful return. "
     "The per-pixel input files are never modified.",
     ["crash_points", "fault_sequences", "histories"], "all kill points and write faults during consolidation, and any number of repeats",
     "Tests consolidate once, without faults.",
     ["redmapper/pipeline/redmapperconsolidatetask.py", "redmapper/redmapper_run.py", "redmapper/catalog.py"],
     [("clobber-on-start and append spooling", "redmapper/pipeline/redmapperconsolidatetask.py"), ("consolidated-file checks", "redmapper/redmapper_run.py:RedmapperRun._consolidate")])

prop("P12", "Percolation never hands out more than the whole of a galaxy",
     "In a percolation run, at every point of the run and whatever the random draws and the order of candidate clusters, no galaxy has been assigned total membership probability above one, and the availability recorded for a member equals one minus the probability already taken by the clusters processed before it (zero may be recorded for a centering candidate whose own membership is negligible). "
     "Every recorded cluster is at least the minimum richness, no cluster starts from a seed galaxy or is finally centred on a galaxy that is already mostly taken, clusters are numbered in decreasing order of likelihood of their seeds, and each recorded member belongs to exactly one recorded cluster entry with probabilities between zero and one. "
     "When percolation masking is off every galaxy counts as fully available to every cluster.",
     ["inputs", "histories", "schedules"], "all candidate lists, random mask-sample draws and processing histories",
     "The percolation tests cannot run in this environment and only spot-check a few richness values.",
     ["redmapper/cluster_runner.py", "redmapper/run_percolation.py", "redmapper/runcat.py", "redmapper/cluster.py"],
     [("availability bookkeeping", "redmapper/cluster_runner.py:ClusterRunner.run"), ("seed cut", "redmapper/run_percolation.py:RunPercolation._process_cluster")])

prop("P13", "Backgrounds do not depend on workers, and their two tables survive crashes",
     "The galaxy background is the same for every number of worker processes and completion order, and equals the one computed in one go from all the requested galaxies, covering every redshift bin exactly once. "
     "The galaxy background and the zred background share one file: generating one without overwriting never removes or alters the other, repeating a generation without overwrite changes nothing, and after a kill at any moment, rerunning the missing generations yields a file with exactly one complete table of each kind, equal to that of an uninterrupted run.",
     ["schedules", "crash_points", "configurations", "histories"], "all worker counts and completion orders, all kill points in any order of the two generations",
     "Tests generate each background once with two workers and spot-check some bins.",
     ["redmapper/background.py", "redmapper/catalog.py", "redmapper/calibration/calibrate.py"],
     [("redshift-bin split and reassembly", "redmapper/background.py:BackgroundGenerator.run"), ("extension-name checks", "redmapper/background.py"), ("appending extension writes", "redmapper/catalog.py:DataObject.to_fits_file")])

prop("P14", "A calibration killed at any stage resumes to the same products",
     "If the red-sequence calibration is killed at any moment, any number of times, and rerun, it runs to completion and every stage that is executed receives the same settings and the same input files as in an uninterrupted calibration, so the final products and the emitted run configuration are the same. "
     "Stages whose product is complete are skipped, each other stage is run once per resume in the documented order, and a stage is never fed a product left incomplete by the kill. Each stage uses the products of its own iteration and the members and seeds of the previous one, and the emitted run configuration names the products of the last iteration. "
     "Values loaded back from calibration products are the ones stored in them.",
     ["crash_points", "fault_sequences", "histories"], "all kill points between and inside stages, repeated kills, numbers of iterations and region settings",
     "The calibration driver is too slow to test and has no test; its resume branches never run.",
     ["redmapper/calibration/calibrate.py", "redmapper/configuration.py", "redmapper/redmapper_run.py", "redmapper/catalog.py"],
     [("skip-if-present chain", "redmapper/calibration/calibrate.py"), ("loading centering values", "redmapper/configuration.py:Configuration._wcen_vals")])

prop("P15", "Random catalogs have the requested size and respect the volume limit",
     "Generating randoms produces exactly the requested number, numbered from one without gaps, each stored once in the pixel containing it, each at a position accepted by the mask and with a redshift below the maximum redshift the volume-limit map gives at that position, with redshift, richness and id copied together from one input cluster; points are as dense as the coverage fraction of the mask, and input clusters that fit in the survey are used equally often whatever their redshift. "
     "This holds for every random stream and request size, including those needing several generation rounds. "
     "If generation is killed or a write fails, no master table is published; weights of the points that survive a selection always compensate exactly for the rejected draws of the same input cluster.",
     ["inputs", "crash_points", "fault_sequences"], "all random streams, request sizes, masks, and kill points",
     "The randoms tests generate one small set with one seed, with one rejection pattern, on a healthy disk.",
     ["redmapper/randoms.py", "redmapper/volumelimit.py", "redmapper/galaxy.py"],
     [("rejection sampling rounds", "redmapper/randoms.py:GenerateRandoms.generate_randoms"), ("weights", "redmapper/randoms.py:RandomWeigher.weight_randoms")])

prop("P16", "redMaGiC selection spools every selected galaxy once, or reports failure",
     "Running the redMaGiC selection over a pixelized catalog writes, for every requested mode, exactly the galaxies that selecting each pixel separately would give, each once, in pixel order, whatever modes are run together, and each passes that mode's chi-squared, luminosity and redshift limits. "
     "An existing selection is never overwritten unless asked; when asked, nothing of the old content remains. "
     "After a kill or write error at any moment, rerunning with overwriting gives the same files as an undisturbed run, and randoms produced for a selection have the requested number, lie inside the mask and below its redshift limit.",
     ["crash_points", "fault_sequences", "inputs", "histories"], "all mode sets, pixel contents (including pixels with no selected galaxy), kill points and repeats",
     "The redMaGiC task test runs one selection over the test pixels once.",
     ["redmapper/redmagic/redmagictask.py", "redmapper/redmagic/redmagic_selector.py", "redmapper/redmagic/redmagic_randoms.py"],
     [("per-pixel spooling", "redmapper/redmagic/redmagictask.py"), ("selection", "redmapper/redmagic/redmagic_selector.py")])

prop("P17", "Configurations survive handover to workers and files, and never mix",
     "A configuration handed to a worker process, or written to a file and read back by another job, gives that job the same settings. "
     "In a multiprocess run every stage of every sky pixel runs with the caller's settings, apart from the region, the output name and the input catalog, which are always those of its own pixel; what a worker sets for its pixel is never seen by other workers or the caller, nor used for later pixels of the same worker. "
     "Reading a configuration file is not influenced by configurations read earlier in the same process, and an illegal or unknown setting is refused with an error.",
     ["schedules", "histories", "configurations"], "all settings, task orders, worker reuse patterns and sequences of configurations loaded in one process",
     "Tests load a configuration once and check individual values.",
     ["redmapper/configuration.py", "redmapper/redmapper_run.py"],
     [("field reset on load", "redmapper/configuration.py:Configuration.__init__"), ("per-worker duplicated settings", "redmapper/configuration.py:DuplicatableConfig"), ("yaml output", "redmapper/configuration.py:Configuration.output_yaml")])

prop("P18", "A volume-limit mask built on demand is complete for every job that uses it",
     "Any number of jobs that need the same volume-limit mask, starting at any time while it may not exist yet, all end up with the same mask, identical to one built by a single undisturbed job, or fail with an error; none silently works with a partial or damaged mask. "
     "After a kill or write error while the mask is being built, the next job that needs it builds or reads a correct one. "
     "A job restricted to a sky region gets the same limits inside that region as a job reading the whole mask, and an existing mask is not rebuilt or altered.",
     ["schedules", "crash_points", "fault_sequences"], "all interleavings of jobs building and reading, all kill points during the build",
     "The test builds and reads one mask in one process.",
     ["redmapper/volumelimit.py"],
     [("build-if-absent then read", "redmapper/volumelimit.py:VolumeLimitMask.__init__")])

prop("P19", "Saved tables are all-or-nothing and read back as saved",
     "Saving a catalog or table and reading it back gives the same rows, columns, row selection and header keys. "
     "If saving is interrupted by a kill or fails with an I/O error at any moment, a reader of that file name finds either the previous content or the complete new content, never a partial table, and a failed save raises an error. "
     "Saving without overwriting never loses tables already in the file.",
     ["crash_points", "fault_sequences", "inputs"], "all tables, row selections, kill points inside the save, and write errors",
     "Tests save files only on a healthy disk and never interrupt a save.",
     ["redmapper/catalog.py"],
     [("table writing", "redmapper/catalog.py:DataObject.to_fits_file")])

prop("P20", "An input that cannot be read is an error, never a silently different result",
     "When reading any input fails, an input file turns out to be cut off, or a file that a table or catalog refers to (a galaxy pixel file, a zred file listed for a zred table, the members of a catalog, the input clusters of a random catalog) is gone, while a pipeline stage or job runs, the stage either raises an error or still produces exactly the output of an undisturbed run; it never completes with different output. "
     "A product that is present after such a failure is always the right one (except in jobs that append their output pixel by pixel, the consolidation and the redMaGiC selection, which report the failure and start over when repeated), and repeating the stage once the input is readable again gives the output of an undisturbed run.",
     ["fault_sequences", "inputs", "histories"], "read errors at any operation on any input, inputs cut off at any length, and inputs gone before or during the job, for every kind of job",
     "Tests only ever read healthy files.",
     ["redmapper/cluster_runner.py", "redmapper/depthmap.py", "redmapper/mask.py", "redmapper/configuration.py", "redmapper/galaxy.py", "redmapper/pipeline/redmappertask.py", "redmapper/redmapper_run.py", "redmapper/zred_runner.py", "redmapper/background.py", "redmapper/randoms.py", "redmapper/redmagic/redmagictask.py", "redmapper/pipeline/redmapperconsolidatetask.py"],
     [("setup of a stage", "redmapper/cluster_runner.py:ClusterRunner._setup"), ("sub-region map reads", "redmapper/depthmap.py"), ("zred table", "redmapper/zred_runner.py:ZredRunPixels.make_zred_table")])

prop("P21", "Every job sees the survey's mask and depth as they are",
     "Converting a mask or depth file to the sparse format gives every sky pixel exactly the good fraction, depth and survey values of the input and nothing elsewhere; an existing map is not overwritten unless that is asked for. If a conversion is killed or a read or write fails, a job reading what is left raises an error or sees the whole map, never one with missing or wrong pixels, and converting again with overwriting gives the right map. "
     "A job restricted to any set of sky pixels (with a border around a single one) sees at every position of its region and border the same mask and depth as a job that reads the whole map, for the same random draws with the same decisions, for any resolution of region, map and coverage; the mask galaxies around a cluster get the mask and depth at their own positions (places without depth take the median of those with it), partly covered places are accepted at the rate of their good fraction, and positions off the footprint or beyond the poles are never taken as good. The total area of a region is the sum of the good fractions of its pixels.",
     ["inputs", "schedules", "crash_points", "fault_sequences"], "all footprints, resolutions, regions and borders, with jobs reading at any time before, during and after conversions that are killed or fail",
     "Tests convert and read one healthy map.",
     ["redmapper/mask.py", "redmapper/depthmap.py", "redmapper/utilities.py"],
     [("mask conversion", "redmapper/mask.py:convert_maskfile_to_healsparse"), ("depth conversion", "redmapper/depthmap.py:convert_depthfile_to_healsparse"), ("region reads", "redmapper/utilities.py:get_healsparse_subpix_indices"), ("mask decisions", "redmapper/mask.py:HPMask.compute_radmask"), ("depth at positions", "redmapper/depthmap.py:DepthMap")])
prop("P22", "A run distributed with the command-line scripts gives the result of its pixels",
     "Submitting a run (cluster finding, zreds, richnesses, random masking, redshift scan) with the batch script writes a job file whose jobs cover every sky pixel that holds galaxies exactly once, at the resolution asked for and with the configuration and folder of the run, makes the mask galaxies completely if they are missing, and never alters an earlier job file or the configuration. "
     "Running the jobs in any order and at the same time, with jobs killed or failing and the run submitted again, and then consolidating with the command-line scripts (again after a failure) gives exactly the pixel products that each pixel gives when it is run alone, and the consolidated catalog and members hold each cluster (or random) of its own pixel exactly once.",
     ["inputs", "schedules", "crash_points", "histories"], "all run modes, survey layouts, splits and batch systems, orders of the jobs, and kills or write errors during submission, jobs and consolidation",
     "No test runs a script, let alone a distributed run that is disturbed.",
     ["bin/redmapper_batch.py", "bin/redmapper_run_redmapper_pixel.py", "bin/redmapper_run_zred_pixel.py", "bin/redmapper_runcat_pixel.py", "bin/redmapper_run_zmask_pixel.py", "bin/redmapper_run_zscan_pixel.py", "bin/redmapper_consolidate_run.py", "bin/redmapper_consolidate_runcat.py", "redmapper/parsl_templates.py", "redmapper/pipeline/redmappertask.py", "redmapper/pipeline/zredtask.py", "redmapper/pipeline/redmapperconsolidatetask.py"],
     [("submission", "bin/redmapper_batch.py"), ("pixel jobs", "redmapper/pipeline/redmappertask.py"), ("consolidation", "redmapper/pipeline/redmapperconsolidatetask.py")])

prop("P30", "Richness, redshift and likelihood estimates solve their defining equations",
     "For every cluster candidate the reported richness solves the matched-filter richness equation within tolerance, the reported redshift maximises the cluster likelihood, and p(z) is normalised.",
     ["inputs"], "all galaxy neighbourhoods and parameter sets", "Tests check a handful of clusters.",
     ["redmapper/cluster.py", "redmapper/zlambda.py", "redmapper/solver_nfw/solver_nfw.c"], [("NFW richness solver", "redmapper/solver_nfw")])
prop("P31", "Galaxy chi-squared and red-sequence interpolation are exact to tolerance",
     "For every galaxy, colour error and redshift the compiled chi-squared equals the matrix definition, independent of evaluation mode.",
     ["inputs"], "all galaxies, covariances and redshifts", "Tests compare fixed vectors.",
     ["redmapper/chisq_dist/chisq_dist.c", "redmapper/redsequence.py"], [("compiled chi-squared", "redmapper/chisq_dist/chisq_dist.c")])
prop("P32", "Calibration fits converge to the red sequence present in the data",
     "For every training sample with a detectable red sequence the fitted model reproduces its mean, slope, scatter and corrections within statistical error.",
     ["inputs"], "all training samples", "Tests fit one sample.",
     ["redmapper/fitters.py", "redmapper/calibration/redsequencecal.py"], [("node fits", "redmapper/fitters.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
