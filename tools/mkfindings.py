"""writes known_findings.jsonl (one "fixed" entry per fix: commit in /repo; "known" entries would suppress a match)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C10', 'e70770b', 'the region search crashed with an IndexError when no candidate split was acceptable (binary conditioning feature, homogeneous model, every region below the minimum)'),
 ('C10', '84a4758', 'RegionalShapDP.fit crashed when a candidate region has fewer than four instances or a constant feature of interest; the other methods count it as maximally heterogeneous'),
 ('C18', '46f27de', 'RegionalPDP, RegionalALE and RegionalRHALE swallowed an unknown centering given to fit and reported no subregions'),
 ('C18', '9eff33e', 'RegionalALE accepted Greedy/DP binning, swallowed the refusal of ALE and reported no subregions'),
 ('C03', '0201c41', 'fitting one feature dropped the instances outside its axis limits for all other features (PDP, d-PDP, SHAP-DP); also C01, C16'),
 ('C01', '43a2bd6', 'eval/plot with another centering re-fitted with the default binning instead of the one last given'),
 ('C04', 'c8c65a0', 'ALE local effects were divided by the width of the first bin instead of their own'),
 ('C09', '45a3923', 'second-level nodes carried data instead of instance effects'),
 ('C09', 'f530e11', 'an instance lying on a split position went to the > node although the name says <='),
 ('C11', '2bfd376', 'regional eval/plot re-sampled the region with the default nof_instances'),
 ('C11', '58816e9', 'RegionalALE/RegionalRHALE eval ignored the binning method given to fit'),
 ('C05', '4b9b5b9', 'RHALE.fit refused the documented binning_method="dp"'),
 ('C14', 'e765ce2', 'H-index and REPID called the PDP functions with a wrong signature'),
 ('C14', 'fac01a7', 'one-vs-all H-index did not center the model output'),
 ('C15', '9d176f0', 'ALE/RHALE plots with only one of scale_x/scale_y left the bars unscaled'),
 ('C15', '15ba073', 'scaled SHAP-DP plots crashed when no SHAP values were scattered'),
 ('C15', 'c65902d', 'd-PDP plots scaled derivatives as outputs and labelled the axis y'),
 ('C15', '48ae08e', 'the std_err band of PDP plots was the std'),
 ('C11', '6cee003', 'RegionalALE.plot drew the RHALE of the region'),
 ('C11', '38f5df2', 'RegionalRHALE.plot passed the feature names as target name'),
 ('C04', '1b7052f', 'ALE/RHALE depended on absolute magnitudes (EPS for the closed last bin, BIG_M for the flat tail); also C20'),
 ('C06', '68e3435', 'Fixed binning crashed with an index error on a constant feature instead of refusing it'),
 ('C06', 'fd0064b', 'the documented min_points=None crashed Greedy and DP'),
 ('C06', '817a110', 'the last DP limit could differ from the right axis limit by rounding and lose an instance'),
 ('C07', 'd96e27c', 'DP selected empty bins (NaN cost) and bins below the minimum'),
 ('C03', '896cf98', 'integer data truncated the values set by PDP/ALE/the numerical Jacobian; also C04'),
 ('C10', 'eadd7ef', 'a feature declared categorical could have at most nof_candidate_splits values'),
 ('C10', 'd7aaa90', 'RegionalPDP measured the heterogeneity of uncentered ICE curves whatever centering was asked'),
 ('C02', 'c185c70', 'SHAP-DP was centered on the range of the data instead of its axis limits'),
 ('C14', 'fd78edd', 'plotting the H-index matrix overwrote its diagonal'),
 ('C14', 'bb80718', 'REPID re-sampled the instances it was given'),
 ('C02', 'da35f02', 'the documented points_for_centering="all" crashed'),
 ('C17', '5d931d8', 'show_partitioning divided by zero on a level without heterogeneity'),
 ('C11', '848abc2', 'eval/plot after a scaled plot used the scaled (possibly outdated) tree'),
 ('C07', '201f51f', 'Greedy and DP collapsed to one bin when the range was small relative to the magnitude; also C08'),
 ('C14', '5ac22fc', 'REPID.plot after a fit of some features drew the placeholder 1e10 for the others'),
 ('C19', '82c3e12', 'the transformer took the splits in the order of the dictionary instead of the features'),
 ('C19', '5a7a8fc', 'the transformer left nan instead of 0 in unselected columns of infinite or missing values'),
 ('C08', 'd21c8ec', 'constant effects that are not binary fractions were split by rounding noise (44 bins for a derivative of 0.1)'),
 ('C21', 'b9fed9e', 'plots without feature names called feature k x_(k+1) although the documented default names are x_0, x_1, ...; also C15'),
 ('C12', '7d99123', 'the axis limits of a sub-sampled regional effect came from all rows of the caller, so a centered RegionalPDP / RegionalDerPDP fit asked the model at points of rows left out'),
 ('C10', '24afa4f', 'with heterogeneities of the order of 1e8 and above (outputs in a tiny unit) regions below the minimum size looked better than others: the search chose them and the pruning kept them; also C09'),
]
KNOWN = []
with open(os.path.join(HERE, 'known_findings.jsonl'), 'w') as fh:
    for pid, c, what in FIXED:
        full = subprocess.run(['git', '-C', '/repo', 'rev-parse', c], capture_output=True, text=True).stdout.strip()
        assert full.startswith(c), c
        fh.write(json.dumps(dict(kind='fixed', property=pid, commit=full, what=what, line='fixed: property=%s %s %s' % (pid, full, what))) + '\n')
    for k in KNOWN:
        fh.write(json.dumps(dict(kind='known', **k)) + '\n')
