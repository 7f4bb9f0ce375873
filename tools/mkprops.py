import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
PT="pycomlink/processing/pytorch_utils/inference_utils.py"
TF="pycomlink/processing/tensorflow_utils/inference_utils.py"
p("C01","A cached model file is always one complete download",
"Whatever transfer failures, disk errors, process kills or concurrent users of the same cache directory occur, a model path handed out by the download cache (PyTorch or TensorFlow) holds, from the moment it is returned, exactly the bytes of one complete server response for the requested URL. A call that cannot deliver that raises; it never returns a truncated, mixed or empty file, and neither does any later call that finds the file already cached.",
["fault_sequences","crash_points","schedules","histories"],"for every sequence of cache calls from any number of threads and processes, every transfer/disk fault position, every kill point and every interleaving",
"The only two tests of the download code need github.com and are skipped offline; with network they run one fault-free, single-caller download.",
[PT,TF],[("download to the cache, reuse if present","download_and_cache_model, download_and_cache")],[("cached file","bytes of one complete response","cache_dir/<name>")],["return value of the cache call, file content at that path at every later scheduler step"])
p("C02","A failed or killed refresh never costs the user the model already cached",
"Once a model has been cached for a URL, that URL stays usable without network: a forced re-download that fails, is interrupted or is killed at any point leaves either the previous complete model or the new complete model in the cache. Only an explicit cache clear may remove it.",
["crash_points","fault_sequences","histories"],"for every history of successful downloads followed by refreshes that fail or are killed at any network, disk or statement position, alone or next to other callers",
"No existing test forces a re-download, fails one, or looks at the cache afterwards.",
[PT,TF],[("force_download refresh","download_and_cache_model, download_and_cache, resolve_model_paths")],[("cached file","last complete model for the URL","cache_dir/<name>")],["an offline call after each refresh"])
p("C03","Cache hits use no network; misses and forced refreshes really download",
"A request for an already cached URL is answered from disk with no network traffic and returns the most recently cached version; a request for an uncached URL, or a forced one, performs a download during that call and returns the content the server had then. A failed download (refused, timed out, HTTP error, truncated) raises to the caller, caches nothing, and the next request tries the network again.",
["histories","fault_sequences","configurations"],"for every sequence of requests, forced requests, server-side updates, network outages and process restarts",
"Tests perform at most one download each and never a second request, an update on the server, or a failing server.",
[PT,TF],[("exists-or-force decision","download_and_cache_model, download_and_cache, resolve_model_paths")],[("cache entry","absent or last complete version","cache_dir")],["requests seen by the simulated server per call; content returned"])
p("C04","Different model URLs never get each other's model",
"Requests for two different URLs are never answered with each other's content, whatever the URLs have in common (same file name, same host, differing only in directory, query string or host) and in whatever order or concurrently they are requested. This holds for the PyTorch and the TensorFlow cache, including the architecture and weights files resolved as a pair.",
["inputs","histories","schedules"],"for every set of distinct URLs sharing one cache directory, every order and interleaving of requests",
"Tests use one URL per cache directory.",
[PT,TF],[("URL to cache file name","download_and_cache_model (md5), download_and_cache (file name)"),("pair resolution","resolve_model_paths")],None,["content of each returned path"])
p("C05","Cache listing and clearing are truthful, complete and contained",
"Listing the PyTorch model cache reports exactly the models that are completely cached at that time, never a partial download; clearing it removes every cached model and leftover, touches nothing outside the cache directory, and copes with files vanishing or appearing concurrently, so that the next request downloads afresh.",
["histories","schedules","crash_points"],"for every history of downloads, failures, kills, listings and clears by several processes sharing the directory",
"No test calls the listing or clearing function.",
[PT],[("clear","clear_model_cache"),("list","list_cached_models")],[("cache directory","set of complete models plus leftovers","~/.cml_wd_pytorch/models")],["directory content after each call, paths passed to destructive calls"])
p("C06","Loading a model yields exactly the requested model or an error, and recovers",
"Asking for a model by URL or local path either returns a usable model that computes what the file at that source computes, in evaluation mode, or raises; damaged, truncated or missing files, failed downloads and kills never yield a model or poison later calls. Local paths are loaded without network or cache access, strings that are neither URL nor model path are rejected, and once faults stop the next request for a healthy source succeeds.",
["fault_sequences","crash_points","histories"],"for every sequence of loads from healthy and damaged sources with faults and kills at any point, then a fault-free request",
"The one loading test needs the network, loads one healthy model once, and is skipped offline.",
[PT,"pycomlink/processing/pytorch_utils/pytorch_utils.py"],[("dispatch","get_model"),("load","load_model, _load_model_from_url, _load_model_from_local_path")],None,["returned model's output on a probe input; network and cache activity during the call"])
p("C07","TensorFlow is never installed unasked, and acquiring it can be retried",
"A package installation is started only if TensorFlow cannot be imported and the caller or the documented environment variable asks for it; otherwise a missing TensorFlow raises an import error and nothing is executed but GPU detection. A failed, interrupted or refused acquisition leaves no trace: it is reported as an error, and a later attempt succeeds once TensorFlow is available; every successful call, from any thread, returns the one working module.",
["histories","schedules","fault_sequences"],"for every history of attempts by several threads with import failures, failing or absent GPU detection, failing installs, interrupts, and TensorFlow becoming available at any time",
"Tests run in an environment where TensorFlow imports at once; no failure path is ever taken.",
["pycomlink/processing/tensorflow_utils/lazy_tf.py"],[("lazy import","get_tf, ensure_tensorflow_installed"),("GPU probe","detect_gpu_without_tf")],[("tf","module once acquired","lazy_tf.tf")],["subprocess calls recorded at the seam; return values"])
p("C08","PyTorch wet/dry predictions land on their own link and time, or the call fails",
"Every probability returned for a link and time is what the model computes from that link's own window for that target time, independent of batch size, of the other links in the data set and of other callers sharing the model; positions without a full window stay missing. If the model fails on any batch or the call is interrupted, the call raises instead of returning a partly filled or misaligned result, the caller's data is not modified, and the next call is unaffected.",
["configurations","fault_sequences","schedules","inputs"],"for all window and batch sizes, reference lengths, link counts, data gaps, failing batch positions, interrupt points and interleavings of callers",
"The only test compares one link, one batch size and one downloaded model, and is skipped offline.",
["pycomlink/processing/pytorch_utils/run_inference.py","pycomlink/processing/pytorch_utils/pytorch_utils.py"],[("windowing","rolling_window, batchify_windows"),("batched inference","run_inference, build_dataloader, predict_batch"),("placement","redistribute_results")],None,["predictions variable of the returned data set"])
p("C09","TensorFlow predictions land on their own link and time, or the call fails",
"Every probability returned for a link and time comes from the model applied to that link's own complete window ending at that time; windows with any missing sample, unknown or too short links and total outages leave missing values and never shift or contaminate other positions, for any batch size and subset of links. If the model fails on any batch or the call is interrupted, the call raises instead of returning a partial result, the caller's data is not modified, and the next call is unaffected.",
["configurations","fault_sequences","schedules","inputs"],"for all sequence lengths, batch sizes, link subsets, per-link data gaps and outages, failing batches, interrupts and interleaved callers",
"The only test predicts a single window of a single link with constant data, and is skipped offline.",
[TF,"pycomlink/processing/tensorflow_utils/run_inference.py"],[("sampling","create_samples"),("scaling","scale_features"),("prediction","run_inference"),("placement","store_predictions")],None,["returned array or merged data set"])
p("C10","Reading a CML file returns everything in it or raises, and lets go of it",
"Reading a cmlh5 file returns every link and channel with exactly the stored samples, times and metadata, as the file is at the time of the call; if any read fails, is cut short, or the file is truncated or incomplete, the call raises rather than returning fewer links, channels or samples. Successful or failed, it leaves the file unmodified and closed, so that it can be rewritten and read again.",
["fault_sequences","histories","inputs"],"for every file layout, every position of a read error, short or interrupted read or truncation, and every history of rewriting and re-reading",
"The only direct test needs a data file that is missing; the others read two intact example files.",
["pycomlink/io/cmlh5_to_xarray.py"],[("read","read_cmlh5_file_to_xarray")],[("file handle","open HDF5 file","fh")],["returned data sets; open HDF5 handles and file bytes afterwards"])
p("C11","IDW interpolation never answers from another call's points, grid or settings",
"Every result of an inverse-distance interpolator object equals that of a freshly built one given the same points, values, grid, neighbour count, power and maximum distance, no matter which calls were made before (including calls that failed or were interrupted), whether the caller reuses and changes arrays in place, or whether several threads share the object. Missing values are left out as if their points did not exist, and if all are missing the whole grid is missing, for any grid type.",
["histories","schedules","fault_sequences","inputs"],"for every history of calls on one object with changing arguments, in-place array reuse, failures and interrupts at any statement, and every interleaving of threads sharing it",
"Tests call each object once, or several times with only the query points growing; cached trees and distances are never reused with different settings.",
["pycomlink/spatial/idw.py","pycomlink/spatial/interpolator.py"],[("tree and distance reuse","Invdisttree.__call__, IdwKdtreeInterpolator._interpol_func")],[("q,nnear,eps,distances,ix","last query","Invdisttree"),("x,y,idw","last points","IdwKdtreeInterpolator")],["returned grid"])
p("C12","Kriging maps belong to their own call",
"Every map and grid produced by a kriging interpolator object equals that of a freshly built one for the same points, values, grid or resolution and settings, whatever was computed, failed or interrupted on the object (or another object with default settings) before, and also when threads share it; arrays and variogram settings passed in are never changed. Missing values are left out, and if all are missing the map is missing everywhere. The climatological variogram parameters are those of their date and duration by the formulas of van de Beek et al. (2012), whatever was asked for, or done with earlier results, before.",
["histories","schedules","fault_sequences","inputs"],"for every history of calls with changing points, gaps, grids and settings, failures and interrupts at any statement, and thread interleavings",
"The single kriging test makes one call on one object.",
["pycomlink/spatial/interpolator.py"],[("interpolation template","PointsToGridInterpolator.__call__"),("kriging","OrdinaryKrigingInterpolator"),("grid generation","_parse_grid_kwargs")],[("xgrid,ygrid,zgrid,sigma","last result","PointsToGridInterpolator")],["returned grid"])
p("C13","Link processing functions have no memory and leave their inputs alone",
"Baseline, wet-antenna, rain-rate, k-R parameter, blackout, MLP and STFT wet/dry and validation-metric functions return the same result for the same arguments whatever was called, failed or was interrupted before and whatever other threads are computing at the same time. They never modify the arrays or data sets passed in, and results returned earlier never change when inputs or other results are modified later (a frequency array supplied to the STFT classification is handed back in its info as it is).",
["histories","schedules","fault_sequences"],"for every history of calls with varied arguments (NumPy and xarray), interrupts and allocation failures at any statement, in-place modification of inputs and results between calls, and interleavings of concurrent callers",
"Tests call each function a few times in one thread with unrelated arguments and never look at the inputs afterwards.",
["pycomlink/processing/baseline.py","pycomlink/processing/wet_antenna.py","pycomlink/processing/k_R_relation.py","pycomlink/processing/blackout_gap_detection.py","pycomlink/processing/min_max.py","pycomlink/processing/xarray_wrapper.py","pycomlink/processing/wet_dry/mlp.py","pycomlink/processing/wet_dry/stft.py","pycomlink/validation/stats.py"],[("pure functions behind one xarray wrapper","xarray_apply_along_time_dim")],[("module globals","ITU tables, pickled models, wrapper state","module level")],["return values; bytes of the arguments before and after"])
p("C14","Nearby-link processing is safe on shared network data",
"The nearby-link steps (endpoint distances, wet/dry classification, reference level, signal correction, rain rate) give the same results when several callers share one network data set and one distance matrix, with the same or different radius and thresholds, as each would get alone; and the same results whatever ran or failed before. The shared inputs, including the distance matrix, are never modified.",
["schedules","histories","fault_sequences"],"for every interleaving and history of calls sharing inputs, with interrupts at any statement",
"Tests run each step once, alone, on private inputs.",
["pycomlink/processing/wet_dry/nearby_wetdry.py","pycomlink/processing/nearby_rain_retrival.py"],[("neighbour selection","nearby_wetdry"),("distance matrix","calc_distance_between_cml_endpoints")],[("ds_dist","distance matrix shared by callers","argument")],["return values; bytes of the arguments"])
p("C15","Grid validation answers for the link it was asked about",
"A grid validator object reused for many links, in any order, interrupted at any point or shared by threads, returns for each link the rainfall along that link's own path and period; resampling onto the grid times uses the time series obtained last. Neither it nor the statistics calculation changes the link object, the link's data or the reference data, so repeating a call gives the same answer.",
["histories","schedules","fault_sequences"],"for every history of requests for several links on one object, repeated calls, interrupts and thread interleavings",
"The validator test module contains no test of the validators.",
["pycomlink/validation/validator.py"],[("intersection and weighted sum","GridValidator"),("statistics","Validator.calc_stats")],[("intersect_weights, weighted_grid_sum","last link's result","GridValidator")],["returned time series; link object before and after"])
p("C16","In real-time use, published results are not rewritten by later data",
"When a growing record is reprocessed as samples arrive, a non-missing value already published for an earlier time is never changed by later samples: immediately for rain rate, constant baseline, wet-antenna attenuation, blackout mask, reference level and the online MLP classifiers, also for the PyTorch window classifier and the spectral (STFT) classifier with a given dry period; after a fixed lag for the nearby-link wet/dry classification and what is derived from it (two steps) and for the centred MLP classifiers (six and a half hours); and once the wet period has ended for the linear baseline, which is missing until then.",
["schedules","histories","inputs"],"for every arrival schedule (losses, delays, stalls, any polling instants) and every signal history",
"Tests process one complete record once; none compares a record with an extension of it.",
["pycomlink/processing/baseline.py","pycomlink/processing/wet_antenna.py","pycomlink/processing/blackout_gap_detection.py","pycomlink/processing/nearby_rain_retrival.py","pycomlink/processing/wet_dry/nearby_wetdry.py","pycomlink/processing/wet_dry/mlp.py","pycomlink/processing/pytorch_utils/run_inference.py"],[("forward-only loops and trailing windows","all stages")],None,["values published at each poll of the simulated collector"])
p("C17","Lost samples never turn into rain, hurt other links, or do lasting damage",
"When samples of a link are lost, the rain rate of that link at those times is missing, never a number; results of all links that lost nothing and have no lossy neighbour, and results before the loss (up to the look-ahead of a stage), are the same as without it. After the link has been back and dry for as long as a stage looks back, its results are again those of the loss-free record. The constant baseline is at every time either missing or that of the loss-free record, and missing where the wet/dry state is unknown; a classifier or spectral window with a lost sample stays unclassified; a gap is marked as blackout only next to a sample below the threshold, and a delivered sample never; gap starts and ends are marked exactly at the samples below the threshold before and after a gap.",
["fault_sequences","schedules","inputs"],"for every pattern of sample loss, link blackouts and network-wide outages in the delivered feed, against the loss-free feed",
"Tests contain a handful of fixed NaN positions per function and never compare with the undamaged record or other links.",
["pycomlink/processing/baseline.py","pycomlink/processing/wet_antenna.py","pycomlink/processing/k_R_relation.py","pycomlink/processing/nearby_rain_retrival.py","pycomlink/processing/wet_dry/nearby_wetdry.py","pycomlink/processing/wet_dry/mlp.py","pycomlink/processing/blackout_gap_detection.py","pycomlink/processing/xarray_wrapper.py"],[("NaN handling in every stage","calc_R_from_A, baseline_constant, waa_*, nearby_*, mlp_wet_dry")],None,["rain rate and intermediate results of twin feeds"])
p("C18","Time aggregation counts every delivered sample exactly once",
"Aggregating a record onto a coarser time index puts every sample of the common period into exactly one bin, the one its label convention assigns, so sums and counts are conserved (a bin cut off by the end of the common period with right labels, or by its start with left labels, is left out); the result does not depend on the order in which samples arrived, on how often it was computed before, or on the time zone the same instants are expressed in, and the record passed in is not changed. With right labels a complete bin never changes when later samples arrive.",
["schedules","inputs","histories"],"for every arrival order, duplication, loss pattern, polling schedule, bin layout and time zone representation",
"No test calls the aggregation function.",
["pycomlink/util/temporal.py"],[("crop, fill, group","aggregate_df_onto_DatetimeIndex")],None,["aggregated frame at each poll"])
p("C19","A link's results are its own, whichever links are processed with it",
"When a network is processed as a whole, every link and channel gets exactly the baseline, wet antenna attenuation, k-R parameters, rain rate, blackout gap markers, reference level and corrected levels it gets when processed alone with its own data, length, frequency and polarisation; links out of reach have no influence on its nearby-link wet/dry state, F value and rain rate. This holds whatever links join, leave, are moved, retuned or lose data in the course of time, in whatever order links, channels, dimensions and the distance matrix are stored, and after failed or interrupted calls.",
["histories","fault_sequences","inputs"],"for every network, every sequence of membership changes, moves, retunings and losses, and every order of links and dimensions",
"Tests process fixed data sets of a few links in one order and compare with stored numbers.",
["pycomlink/processing/xarray_wrapper.py","pycomlink/processing/k_R_relation.py","pycomlink/processing/baseline.py","pycomlink/processing/wet_antenna.py","pycomlink/processing/nearby_rain_retrival.py","pycomlink/processing/wet_dry/nearby_wetdry.py","pycomlink/processing/blackout_gap_detection.py"],[("application along time for each link","xarray_apply_along_time_dim"),("parameters per link","a_b"),("neighbours","nearby_wetdry")],None,["results of the network and of its links"])
p("C20","The coverage mask covers exactly the links present at the call",
"The coverage mask of a list of links is True exactly at the grid points within the given distance of the path of at least one of the links in the list, with the coordinates they have at the call (up to the polygon approximation of the round ends, below 2 % of the distance), False everywhere if the list is empty, and has the shape of the grid. This holds for regular and irregular grids, whatever links join, leave, move or are reordered between calls, after failed or interrupted calls and for concurrent calls; links, their list and the grids stay as they were.",
["histories","fault_sequences","schedules","inputs"],"for every network and grid, every sequence of changes of links, list and grid, every interrupt point and interleaving of calls",
"No test calls the coverage mask; a fixed list of links cannot show memory of earlier lists or coordinates.",
["pycomlink/spatial/coverage.py"],[("coverage","calc_coverage_mask")],None,["mask at each call"])
p("C21","Validation metrics count every delivered pair exactly once",
"For the records of gauges and links as they are at any time, the performance metrics count every pair of reference and predicted value exactly once: all pairs, pairs with a missing value, missing values of either side and, among the pairs with both values, true wet, true dry, false wet and missed wet pairs. Rates are ratios of these counts (NaN if there is nothing to count); Matthews and Pearson correlation, coefficient of variation, root mean square and mean absolute error, sums, means and the mean rain of false and missed wet pairs are those of the pairs with both values by their definitions (Matthews correlation 0 if nothing is predicted wet). This holds for vectors, matrices, cubes, Series and DataArrays, whatever samples were lost, late or duplicated, and after interrupted calls; the arrays passed in are not changed. (Values exactly at a positive wet threshold are not specified.)",
["histories","fault_sequences","inputs"],"for every pattern of lost, late and duplicated samples of gauges and links, every polling schedule and form of the arrays",
"Tests use two fixed arrays with fixed gaps and compare with stored numbers.",
["pycomlink/validation/stats.py"],[("wet/dry metrics","calc_wet_dry_performance_metrics"),("rain metrics","calc_rain_error_performance_metrics")],None,["metrics at each poll"])
p("C22","Processing a record gives what a sample-by-sample processor gives",
"Processing the record of the links so far, or what is left of it after a restart, gives at every step what a processor gives that takes one sample after the other. Constant baseline: the signal while dry, while wet the mean of the last n baseline values before, missing after an unknown state until dry again (the first n samples are taken as they are). Linear baseline: the signal while dry, the straight line between the dry samples around a wet period, missing if it is open or contains an unknown state that is not to be ignored. Wet antenna attenuation (Schleiss): min of attenuation, maximum and, while wet, the previous value plus 3*dt/tau of what lacks to the maximum. Rain rate: inverse power law with the ITU parameters, zero below the minimum, missing for missing attenuation. Reference level: median of the mean levels of the dry steps among the last n steps, if there are enough; levels are corrected to it unless wet and below; rain rate from the corrected levels, missing if filtered by F. Nearby-link state and F: medians of the deviations of the links within reach from their maximum in the time period, if more than the minimum number have data, with the neighbouring steps of strong deviations. Blackout: gaps after a sample below the threshold. Spectral classifier: normalised power below minus above the dividing frequency compared with the threshold. Online MLP: the probability of the window alone. This holds whatever samples and states were lost, late or duplicated, for levels and states of any number type, and after interrupted calls.",
["histories","fault_sequences","inputs"],"for every pattern of lost, late and duplicated samples and unknown states, every restart and polling schedule, every length of the record",
"Tests compare a few records with stored numbers; they contain few gaps and no restarts.",
["pycomlink/processing/baseline.py","pycomlink/processing/wet_antenna.py","pycomlink/processing/k_R_relation.py","pycomlink/processing/nearby_rain_retrival.py","pycomlink/processing/wet_dry/nearby_wetdry.py","pycomlink/processing/wet_dry/stft.py","pycomlink/processing/wet_dry/mlp.py","pycomlink/processing/blackout_gap_detection.py"],[("baselines","baseline_constant, baseline_linear"),("wet antenna","waa_schleiss_2013"),("rain rate","calc_R_from_A, calc_R_from_A_min_max"),("reference level, correction, retrieval","nearby_determine_reference_level, nearby_correct_received_signals, nearby_rainfall_retrival"),("wet/dry","nearby_wetdry, stft_classification, mlp_wet_dry"),("blackout","get_blackout_start_and_end")],None,["results at each poll and those of the reference models"])
# pure properties, not simulation targets
p("C30","The k-R relation inverts the ITU power law on its whole domain",
"For every attenuation, link length, frequency from 1 to 100 GHz and polarisation, the rain rate obtained satisfies attenuation = a*R^b*length, is non-decreasing in attenuation, zero below the minimum rain rate and missing for missing input; parameters equal the ITU table at its nodes and out-of-range arguments raise.",
["inputs"],"all numeric arguments","A handful of tabulated values are tested.",["pycomlink/processing/k_R_relation.py"],[("power law","calc_R_from_A, a_b")])
p("C31","Wet antenna models are bounded, monotone and zero without rain",
"Wet antenna attenuation is zero at zero rain, non-decreasing in rain rate or observed attenuation, and never exceeds its upper limit or the observed attenuation.",
["inputs"],"all rain rates, attenuations, frequencies and parameters","A few arrays are tested.",["pycomlink/processing/wet_antenna.py"],[("models","waa_leijnse_2008, waa_pastorek_2021, waa_schleiss_2013")])
p("C32","Distances between sites form a metric consistent with coordinates",
"Great-circle distances are symmetric, non-negative, zero only for coincident points, satisfy the triangle inequality, and the endpoint distance matrix has zero diagonal.",
["inputs"],"all coordinates","Few fixed coordinates are tested.",["pycomlink/spatial/helper.py","pycomlink/processing/wet_dry/nearby_wetdry.py"],[("haversine","haversine")])
p("C34","Variogram climatology is finite and positive for every day and duration",
"For every date and aggregation time, sill, range and nugget are finite, positive and periodic over the year, with nugget one tenth of the sill.",
["inputs"],"all dates and durations","Four dates are tested.",["pycomlink/spatial/interpolator.py"],[("formula","clim_var_param")])
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
