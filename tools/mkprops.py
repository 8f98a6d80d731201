"""Writes /verif/properties.jsonl (kept as a generator so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], hook_needed=None)))
G='effector/'
p('C01','Global effects do not depend on the call history',
 "For every global method (PDP, d-PDP, ALE, RHALE, SHAP-DP), evaluating a feature returns exactly what a fresh object returns that was fitted only with the binning method / number of centering points last given to a successful fit of that feature (the defaults if there was none). Fitting, evaluating or plotting any features in any order, with any centering, any number of times, never changes the result for any feature, and an eval or plot that asks for another centering keeps the binning and centering points of the last fit. A call that fails (refused argument, impossible binning) leaves all later results as they were, except that a fit of several features that fails at one of them keeps the new fits of those before it.",
 ['histories','inputs'],'all sequences of fit/eval/plot calls over all features, centerings and binning methods, including failing calls, for the five global methods',
 'The tests fit each object once and evaluate it once or twice; no test interleaves features, changes centering after an explicit binning, or continues after a failed call.',
 [G+'global_effect.py',G+'global_effect_ale.py',G+'global_effect_pdp.py',G+'global_effect_shap.py'],
 [('refit decision','GlobalEffectBase.refit'),('implicit refit in eval','eval of each method'),('per-feature memo','feature_effect / method_args / is_fitted')],
 ['return values of eval','figures of plot'],
 [('is_fitted','which features were fitted','GlobalEffectBase'),('method_args','arguments of the last fit per feature','GlobalEffectBase'),('feature_effect','fitted parameters per feature','GlobalEffectBase')])
p('C02','Centering is a constant shift with its documented anchor',
 "Asking any global method for a centered curve subtracts one constant from the uncentered curve: with zero_start the centered curve is 0 at the left axis limit of the feature, with zero_integral (and True, which means the same) its mean over the axis limits is 0. For PDP and d-PDP the shift is applied to every ICE curve separately (each ICE is 0 at the left axis limit, or has zero mean over the requested number of evenly spaced points of the axis), and the mean and the std are those of the shifted ICE curves. For ALE, RHALE and SHAP-DP the heterogeneity does not depend on centering.",
 ['inputs','configurations'],'all data sets, models, axis limits (inferred, narrower or wider than the data), binning methods, centering options and centering point counts',
 'Tests check centering on two fixed models with inferred limits and one tolerance; the anchor point, per-ICE shifts and user axis limits are never exercised.',
 [G+'global_effect_ale.py',G+'global_effect_pdp.py',G+'global_effect_shap.py',G+'utils_integrate.py'],
 [('normalization constant','_compute_norm_const, _fit_feature'),('subtraction','eval')],['return values of eval'])
p('C03','PDP, ICE and d-PDP follow their definition',
 "The PDP of a feature at x is the mean, over the instances whose value of that feature lies inside the axis limits (bounds included), of the model output with the feature replaced by x and everything else unchanged; its heterogeneity is the population standard deviation of these outputs, and return_all gives the matrix with one row per x and one column per such instance, in data order. d-PDP is the same with the partial derivative of the model (the matching Jacobian column, or a central difference when no Jacobian is given). The result does not depend on vectorization, on the order, number or duplication of the evaluation points, nor on the numeric type of the data.",
 ['inputs','configurations'],'all finite data sets, models, features, axis limits, evaluation points and both vectorization modes',
 'Tests compare the mean of linear and additive models on random uniform data; instances outside the limits, the ICE matrix layout, the std and non-vectorized paths are not covered.',
 [G+'global_effect_pdp.py',G+'helpers.py'],[('ICE matrix','pdp_1d_vectorized / pdp_1d_non_vectorized'),('filtering','drop_points_outside_axis_limits'),('mean/std','PDPBase.eval')],['return values of PDP.eval, DerPDP.eval'])
p('C04','ALE follows its definition',
 "With K equal-width bins over the axis limits (or one bin per value for a categorical feature), ALE assigns every instance inside the axis limits to exactly one bin (a value on an inner limit belongs to the bin on its right, the right end to the last bin), takes as its local effect the model difference between the right and the left limit of that bin divided by the bin's width, and averages the local effects per bin; bins without instances (without two instances, for the variance) take the linear interpolation, over bin indices, of their neighbours. The uncentered curve is 0 at the first limit, piecewise linear with each bin's mean effect as slope, and constant before the first and after the last limit; the heterogeneity accumulates the bins' population standard deviations in the same way.",
 ['inputs','configurations'],'all data sets (duplicates, values on bin limits, empty bins), models, features, axis limits, bin counts, data magnitudes and evaluation points',
 'Tests check smooth models on dense uniform samples where boundary values and empty bins have no visible effect.',
 [G+'global_effect_ale.py',G+'utils.py',G+'bin_splitting.py',G+'binning_methods.py'],
 [('local effects','compute_local_effects'),('bin statistics','compute_bin_effect / compute_bin_variance / fill_nans'),('accumulation','compute_accumulated_effect')],['return values of ALE.eval'])
p('C05','RHALE follows its definition for every binning method',
 "RHALE is the same accumulated curve as ALE with the partial derivative of the model at each instance as local effect and the bins found by the requested binning method. The derivatives come from the array given by the caller if there is one (kept aligned with the instances also when they are sub-sampled), else from the given Jacobian, else from finite differences of the model, and the three agree for models they agree on. Only instances whose feature value lies inside the axis limits count.",
 ['inputs','configurations'],'all data sets, differentiable models, sources of the derivatives, binning methods and axis limits',
 'Tests use one or two smooth models with the default Jacobian and one binning each.',
 [G+'global_effect_ale.py',G+'utils.py',G+'binning_methods.py'],[('derivatives','RHALE.compile'),('fit','RHALE._fit_feature'),('bins','binning_methods.find_limits')],['return values of RHALE.eval'])
p('C06','Bins cover the data and respect the binning parameters',
 "Every binning that ALE or RHALE uses is a strictly increasing sequence of limits that contains every instance inside the axis limits and, for non-categorical features, runs exactly from the left to the right axis limit: Fixed gives exactly the requested number of equal bins, Greedy and DP give bins whose limits lie on their initial grid and never more than the requested number. A feature with at most the categorical limit of distinct values gets one bin per value with limits midway between neighbouring values. Every bin (both limits included) holds at least the requested minimum of instances, and when the method cannot achieve that, or the feature is constant, the fit is refused with an error instead of returning bins that violate it.",
 ['inputs','configurations'],'all data sets, axis limits, binning methods and parameters (bin counts, minimum points, discount, categorical limit)',
 'Tests try five hand-made samples per binning class; boundary values, ties, gaps and the categorical path through the public fit are not tested.',
 [G+'bin_splitting.py',G+'binning_methods.py'],[('validity','BinBase._bin_valid / _none_valid_binning'),('categorical','BinBase._is_categorical'),('find','Fixed.find / Greedy.find / DP.find')],['limits used by ALE/RHALE (kinks of the curve, bars of the plot)','errors raised by fit'])
p('C07','DP binning is globally optimal',
 "Among all ways to partition the axis limits into bins whose limits lie on the grid of the requested maximum number of equal cells, each bin holding at least the requested minimum of instances and at least one, DP binning returns one with the smallest total cost, where a bin costs the variance of the local effects of the instances inside it (both limits included) times its width times (1 - discount * its share of the instances). Any optimal partition is acceptable when several tie; with fewer than twice the minimum of instances in total there is one bin.",
 ['inputs','configurations'],'all data sets, local effects, grid sizes, minimum points and discounts',
 'Tests look at four hand-made samples where the optimum is visually obvious; optimality over all partitions is a universally quantified claim.',
 [G+'bin_splitting.py'],[('dynamic program','DP.find'),('cost','BinBase._bin_cost, DP._cost_of_move'),('backtracking','DP._argmatrix_to_limits')],['limits used by RHALE with DynamicProgramming'])
p('C08','Greedy binning follows its merge rule',
 "Greedy binning scans the equal initial cells from left to right and decides after each cell whether the open bin ends there: it ends when the open bin and the open bin extended by one cell both hold the minimum of instances and the extension would increase the cost (variance of the local effects times width times one minus the discount for more points), or when the open bin is allowed to be empty and is empty; it stays open otherwise, in particular when cost stays equal or zero. The last cell always ends the last bin, and if that bin has too few instances it is merged with the one before it; with fewer than twice the minimum of instances in total there is one bin.",
 ['inputs','configurations'],'all data sets, local effects, cell counts, minimum points and discounts',
 'Tests check samples with piecewise constant effects; the per-cell decision rule and the final merge are exercised at a handful of points.',
 [G+'bin_splitting.py'],[('scan','Greedy.find'),('cost','BinBase._bin_cost')],['limits used by RHALE with Greedy'])
p('C09','Subregions partition the data exactly as their conditions say',
 "After fitting a regional effect, the tree's root holds exactly the instances used, and the two children of a node hold exactly those of its instances that satisfy, respectively violate, the node's split condition (<= / > a position for numerical, == / != a value for categorical conditioning features), in data order and each with its own row of the instance effects; so every level partitions the instances and every node is described by the conjunction of the conditions on its path, which its name spells out. The recorded number of instances is the size of the node, its weight is that size divided by the number of all instances, and its heterogeneity is that of the global method on exactly these instances (for ALE and RHALE the value at the right end of their feature range, otherwise the mean over ten evenly spaced points of that range).",
 ['inputs','configurations'],'all data sets (values on split positions included), feature types, depths, methods and search parameters',
 'One test checks the position of one split on one synthetic model; the contents of the nodes are never looked at.',
 [G+'partitioning.py',G+'regional_effect.py'],[('splitting','Regions.split_dataset'),('tree','Regions.splits_to_tree'),('node access','RegionalEffectBase.get_node_info')],['get_node_info','partition trees','show_partitioning'])
p('C10','The region search takes the best candidate split of each level',
 "At each level the search applies to all regions the one split, among all candidates (every allowed conditioning feature; cell centres of the requested number of equal cells of the feature's range, or every distinct value of a categorical feature), whose weighted heterogeneity drop is the largest, the weights being proportional to region size plus one and regions below the minimum size, or for which the global method fails, counting as maximally heterogeneous; any candidate is acceptable when several tie. It never goes deeper than requested, stops when a region of the current level is smaller than the minimum, never conditions on a feature that is not allowed, and does not split a categorical feature of interest unless asked to. The pruned tree keeps exactly the longest prefix of levels whose relative drop of weighted heterogeneity exceeds the threshold, and keeps only the root when the initial heterogeneity is below the small-enough threshold.",
 ['inputs','configurations'],'all data sets, methods, feature types, candidate sets, depths, thresholds and minimum sizes',
 'One test with one interaction model, one method per class and depth one; ties, depth two, categorical candidates and the pruning rule are not tested.',
 [G+'partitioning.py',G+'regional_effect_pdp.py',G+'regional_effect_ale.py',G+'regional_effect_shap.py'],[('search','Regions.search_all_splits / single_level_splits'),('pruning','Regions.choose_important_splits'),('heterogeneity','_create_heterogeneity_function')],['full and pruned partition trees'])
p('C11','A regional effect is the global effect of its region',
 "Evaluating or plotting a node of a fitted regional effect gives, for every node, evaluation point, centering and heterogeneity option, what the global method of the same kind gives on exactly that node's instances (all of them) with the axis limits of these instances and the binning method given to the regional fit (a name meaning the binning class with its default parameters); the root gives the global effect of all instances used. Results are repeatable: they do not depend on earlier evaluations, plots (scaled or not), reports or fits of other features, and after a new fit of the same feature only the new regions are visible.",
 ['inputs','histories','configurations'],'all regional methods, data sets, nodes, evaluation points, centerings and sequences of fit/eval/plot/report calls',
 'No test evaluates or plots a node.',
 [G+'regional_effect.py',G+'regional_effect_ale.py',G+'regional_effect_pdp.py',G+'regional_effect_shap.py'],[('delegation','RegionalEffectBase._create_fe_object, eval, plot'),('node selection','get_node_info')],['return values of regional eval','figures of regional plot'])
p('C12','Sub-sampling takes distinct, aligned instances',
 "Every global and regional method and the interaction measures use exactly min(nof_instances, N) of the caller's rows: with 'all' or a number not below N all rows in their order, otherwise a random subset without repetition, each row complete and, where per-instance effects are given, paired with its own effects. Everything the object later returns is computed from this one subset, chosen at construction; only the types of features (numerical or categorical) that are not declared are found from all rows given.",
 ['inputs','configurations','schedules'],'all data set sizes, requested numbers of instances and random seeds',
 'Sampling is random and unseeded; the tests use sizes at which all rows are taken or only look at means.',
 [G+'helpers.py',G+'global_effect.py',G+'global_effect_ale.py',G+'regional_effect.py',G+'interaction.py'],[('sampling','helpers.prep_nof_instances')],['instances held by the object','ICE matrices','root of the partition tree'])
p('C13','Inputs of the caller are never modified',
 "No constructor, fit, eval, plot, report or interaction call ever changes anything the caller passed in: the data matrix, the evaluation points, the axis limits, the instance effects, feature names and types, scaling dictionaries and binning objects keep their values. Arrays returned earlier keep their values when later calls are made.",
 ['histories','inputs'],'all call sequences on all classes of the package',
 'No test compares inputs before and after a call.',
 [G+'global_effect.py',G+'regional_effect.py',G+'utils.py',G+'global_effect_pdp.py',G+'visualization.py',G+'interaction.py'],[('copies','copy.deepcopy / fancy indexing before writes')],['arguments after each call'])
p('C14','H-index and REPID follow their definition',
 "The pairwise H-index of two different features is the mean square, over the instances used, of the centered two-feature partial dependence minus the two centered one-feature partial dependences, divided by the mean square of the centered two-feature partial dependence, all evaluated at the instances' own values; the one-vs-all H-index compares in the same way the centered model output with the centered partial dependence of the feature plus that of all others; REPID is the mean over the axis of the std of the zero_start-centered ICE curves. The pairwise index is symmetric, all are 0 for models without the interaction, and neither the order of calls, repeated calls, fit nor plot changes any value. The plots show these values: colours and (to two digits) texts of the heatmap off its diagonal, lengths of the bars.",
 ['inputs','histories'],'all data sets, models, feature pairs and sequences of eval/fit/plot calls',
 'No test covers the interaction module.',
 [G+'interaction.py',G+'global_effect_pdp.py'],[('memo matrices','HIndex.eval_pairwise / eval_one_vs_all, REPID.eval_one_vs_all'),('partial dependence','pdp_nd_vectorized')],['return values of eval_pairwise, eval_one_vs_all','interaction matrices'],
 [('interaction_matrix','memo of the pairwise index','HIndex'),('one_vs_all_matrix','memo of the one-vs-all index','HIndex, REPID')])
p('C15','Plots show what eval returns',
 "The curve drawn by a plot of any global method is the curve eval returns, for the same feature, centering and heterogeneity, over the axis limits (over the bins for ALE and RHALE), with x and y mapped by the given scale_x and scale_y (x*std+mean; for derivatives, i.e. d-PDP curves and the bin bars of ALE and RHALE, multiplication by std_y/std_x). The extras agree with it: bands are curve plus and minus std (or std/sqrt(N) for std_err), ICE lines are the ICE matrix (or the requested number of distinct columns of it), bars have the bins' limits, mean effects and stds, scattered SHAP values are the instances' values, the average-output line is at the scaled average output or at the average the caller gave, and titles, labels and limits are those requested.",
 ['inputs','configurations'],'all global methods, data sets, centerings, heterogeneity options, scalings and label options',
 'Tests never look at a figure.',
 [G+'visualization.py',G+'global_effect_ale.py',G+'global_effect_pdp.py',G+'global_effect_shap.py',G+'helpers.py'],[('drawing','ale_plot, plot_pdp_ice, plot_shap'),('scaling','trans_affine, trans_scale, trans_bin')],['matplotlib figures'])
p('C16','SHAP-DP is a spline through the exact SHAP values',
 "The values SHAP-DP is fitted to are, for every instance inside the feature's axis limits, the exact Shapley value of the feature with these instances as background (for at most 100 of them and few features), paired with the instance's own feature value. The curve is the smoothing spline of these pairs and the heterogeneity is the smoothing spline of the absolute residuals; in particular, for an additive model that is a polynomial of degree at most three in the feature the curve is that component minus its mean over the instances, and the heterogeneity is 0.",
 ['inputs','configurations'],'all data sets with at most 100 instances and few features, models, axis limits',
 'One test checks a linear model with a loose tolerance.',
 [G+'global_effect_shap.py'],[('SHAP values','ShapDP._fit_feature'),('spline','scipy UnivariateSpline')],['return values of ShapDP.eval','scattered SHAP values of ShapDP.plot'])
p('C17','Reports tell the truth about the partition',
 "The texts printed by show_partitioning and describe_subregions list exactly the nodes of the full or of the pruned tree, with their conditions, heterogeneities, sizes, weights, the weighted heterogeneity of every level and its absolute and relative drop, all rounded to the printed digits; with scaling given, split positions are shown as position*std+mean of the conditioning feature and nothing else changes. Features without important splits are reported as such, and printing never changes any later result.",
 ['inputs','configurations','histories'],'all fitted regional effects, with and without scaling, only important or all splits',
 'No test captures the printed reports.',
 [G+'regional_effect.py',G+'partitioning.py'],[('reports','show_partitioning, describe_subregions'),('tree printing','Tree.show_full_tree, Tree.show_level_stats')],['standard output'])
p('C18','Invalid requests are refused, and refusals are harmless',
 "Calls outside the documented domain are refused with an error and never answered with numbers: unknown centering or binning options, unknown heterogeneity options of a plot, a number of instances that is neither an integer nor 'all', data that is not two-dimensional, non-Fixed binning for ALE, evaluating or plotting a feature whose axis limits, as given to a global method, have a left end that is not below the right end, nodes that do not exist, features without subregions, fewer than two points per subregion, more levels than conditioning features. After a refusal the object answers valid requests exactly as if the refused call had not been made.",
 ['histories','inputs'],'all refused calls at any point of any call sequence',
 'No test makes an invalid call.',
 [G+'helpers.py',G+'global_effect.py',G+'global_effect_ale.py',G+'regional_effect.py',G+'regional_effect_pdp.py',G+'partitioning.py'],[('argument checks','helpers.prep_*, assertions')],['exceptions','return values after exceptions'])
p('C19','One-hot region features select exactly their region',
 "The data transformer built from a dictionary of splits per feature replaces every feature by one column per combination of its splits (one column if it has none), in feature order and binary order of the conditions; in each row exactly one column of each group carries the feature's original value - the one whose conditions the row satisfies - and all other columns of the group are 0, and the column names spell out the conditions.",
 ['inputs','programs'],'all data sets and split dictionaries (numerical and categorical, any number of splits per feature, values on the positions)',
 'No test covers the transformer.',
 [G+'partitioning.py'],[('transform','DataTransformer.transform')],['transformed matrix, mask, names'])
p('C20','The model is only asked what the definition needs',
 "While fitting and evaluating, PDP and d-PDP query the model or Jacobian only at instances with just the feature of interest replaced by a requested point (plus or minus the differentiation step) or a centering point; ALE queries it only at instances inside the axis limits with the feature replaced by a limit of the instance's own bin; RHALE queries the Jacobian only at the instances themselves and, when derivatives are supplied by the caller, neither the Jacobian nor the model. So the model is never evaluated with a modified value of any other feature.",
 ['inputs','histories'],'all data sets, models, features, call sequences',
 'Tests never record the queries; an extra or extrapolated query changes nothing visible on smooth models.',
 [G+'global_effect_pdp.py',G+'global_effect_ale.py',G+'utils.py'],[('query construction','pdp_1d_vectorized, compute_local_effects, compute_jacobian_numerically')],['calls received by the model'])
p('C21','A request means the same however it is written',
 "For every class (the five global and five regional methods, the binning classes, HIndex, REPID) and every public call, only the meaning of the arguments matters, not their spelling: an optional argument left out means the default shown in its signature (a constructor's number of instances: 300 for PDP and d-PDP, 100 for SHAP-DP, 1000 for RegionalPDP, RegionalDerPDP and HIndex, all otherwise; 100 points for centering; 30 plotted points; for regional fits thresholds 0.1 and 0.1, depth 1, 20 candidate splits, at least 10 instances; categorical limit 10; Fixed(100,10,15), Greedy(100,10,0.3,15), DynamicProgramming(20,10,0.3,15)); arguments by position and by keyword, one feature and the list of it, 'all' and the list of all features, several features in one call and one call per feature, True and 'zero_integral', True and 'std', 'all' and a number of instances not below the number there is, vectorized or not mean the same; axis limits, feature and target names, average output and feature types left out mean those of the data, 'x_0', 'x_1', ..., 'y', the mean output and the types found by the categorical limit; derivatives given as an array or by the Jacobian mean the same; and a binning method by name means the class with its documented parameters (a minimum of 0 for global effects, 20 bins for 'fixed' there, the class defaults for regional effects). Answers, figures, trees and reports are the same for all spellings.",
 ['inputs','configurations','programs'],'all classes, calls and ways to write their arguments, alone and in sequences of calls',
 'Tests write every call in one way and never compare two ways; most defaults are never relied on at a size or threshold where they matter.',
 [G+'helpers.py',G+'global_effect.py',G+'global_effect_pdp.py',G+'global_effect_ale.py',G+'global_effect_shap.py',G+'regional_effect.py',G+'regional_effect_pdp.py',G+'regional_effect_ale.py',G+'regional_effect_shap.py',G+'binning_methods.py',G+'interaction.py',G+'visualization.py'],
 [('normalisation of arguments','helpers.prep_*'),('named binning methods','binning_methods.find_limits, regional_effect_ale.prep_binning_method'),('defaults','signatures of the public classes')],['return values, figures, standard output, trees'])
p('C22','Objects, figures and the process are independent',
 "What an object answers, refuses, prints and draws depends only on its own constructor arguments and the calls made on it (and on the state of numpy's random stream where instances or lines are drawn at random): objects of any classes, used in any interleaving in one process, also when they share the data, the model, limits, names and binning objects, behave exactly as each would alone in a process of its own. Every plot that is answered makes a new figure, no other call makes one, and no call changes, closes or draws into a figure that is open. No call changes settings of the process (numpy error handling and print options, matplotlib settings, warning filters, Python's random state, environment, working directory), and numpy's random stream is moved only where instances are sub-sampled or lines are drawn at random (or by the shap package), and never restarted, so that with the same numpy seed the same calls give the same results.",
 ['histories','inputs','configurations'],'all pairs of objects of all classes and all interleavings of constructor, fit, eval, plot, report and refused calls on them',
 'Every test uses its objects one after the other and never looks at an earlier object, an open figure or the state of the process again.',
 [G+'global_effect.py',G+'global_effect_ale.py',G+'global_effect_shap.py',G+'regional_effect.py',G+'visualization.py',G+'helpers.py',G+'partitioning.py',G+'binning_methods.py'],
 [('state of an object','dictionaries made by the constructors'),('figures','plt.subplots in visualization.py'),('random choices','helpers.prep_nof_instances, visualization.plot_pdp_ice')],['return values, exceptions, standard output, open figures, settings of numpy, matplotlib and the interpreter'])
p('C23','An answer does not depend on how the problem is written down',
 "Two ways to write the same problem down get the same answers, carried over as the rewriting says. For all five global and five regional methods, HIndex and REPID: instances in another order give the same answers; features in another order give the same answers under their new numbers (also those drawn, printed and in the trees); every instance repeated the same number of times gives the same curves, spreads, indices and ICE curves; a feature the model does not look at changes nothing about the others; another unit or origin of a feature (x = u (x' + c), with its axis limits, evaluation points, scale and derivatives) moves the positions of bins, regions, instances and curves with it and divides derivatives and slopes by the unit; another unit of the output multiplies outputs, derivatives, spreads and heterogeneities by it, and another origin moves only the uncentered PDP and ICE curves. Which bins and regions are found, how many instances they hold, which requests are refused, the printed relative drops, H-indices and - with the units given back as scale - figures and reports stay the same, whatever the size of the units. Excepted: for SHAP-DP the unit of the output and large units and origins (spline smoothing and shap's comparison of values are absolute), spreads of ALE and RHALE under repetition (two copies are enough for a spread), and a feature the model does not look at as candidate for regions.",
 ['inputs','configurations'],'all data sets, models, methods and configurations, and all sequences of rewritings (order of rows and columns, repetition, an unused feature, units and origins of features and output) that can be carried out exactly',
 'Tests use one way to write each problem down, with values around one; no test compares two.',
 [G+'global_effect.py',G+'global_effect_pdp.py',G+'global_effect_ale.py',G+'global_effect_shap.py',G+'binning_methods.py',G+'partitioning.py',G+'regional_effect.py',G+'interaction.py',G+'helpers.py',G+'utils.py',G+'visualization.py'],
 [('assignment to bins','utils.py'),('costs and minima of bins','binning_methods.py'),('candidate splits and drops','partitioning.py'),('indices','interaction.py'),('scales','visualization.py, regional_effect.py')],['return values, figures, standard output, trees'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as fh:
    for r in P: fh.write(json.dumps(r)+'\n')
