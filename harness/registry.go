package main

import (
	"reflect"

	"github.com/flukeish/pmml/models"
)

// registry holds every element type of the library.
var registry = map[string]reflect.Type{
	"ARDSquaredExponentialKernel":      reflect.TypeOf(models.ARDSquaredExponentialKernel{}),
	"ARIMA":                            reflect.TypeOf(models.ARIMA{}),
	"AbsoluteExponentialKernel":        reflect.TypeOf(models.AbsoluteExponentialKernel{}),
	"Aggregate":                        reflect.TypeOf(models.Aggregate{}),
	"Alternate":                        reflect.TypeOf(models.Alternate{}),
	"Annotation":                       reflect.TypeOf(models.Annotation{}),
	"Anova":                            reflect.TypeOf(models.Anova{}),
	"AnovaRow":                         reflect.TypeOf(models.AnovaRow{}),
	"AntecedentSequence":               reflect.TypeOf(models.AntecedentSequence{}),
	"AnyDistribution":                  reflect.TypeOf(models.AnyDistribution{}),
	"Application":                      reflect.TypeOf(models.Application{}),
	"Apply":                            reflect.TypeOf(models.Apply{}),
	"Array":                            reflect.TypeOf(models.Array{}),
	"ArrayType":                        reflect.TypeOf(models.ArrayType{}),
	"AssociationModel":                 reflect.TypeOf(models.AssociationModel{}),
	"AssociationRule":                  reflect.TypeOf(models.AssociationRule{}),
	"Attribute":                        reflect.TypeOf(models.Attribute{}),
	"BaseCumHazardTables":              reflect.TypeOf(models.BaseCumHazardTables{}),
	"Baseline":                         reflect.TypeOf(models.Baseline{}),
	"BaselineCell":                     reflect.TypeOf(models.BaselineCell{}),
	"BaselineModel":                    reflect.TypeOf(models.BaselineModel{}),
	"BaselineStratum":                  reflect.TypeOf(models.BaselineStratum{}),
	"BayesInput":                       reflect.TypeOf(models.BayesInput{}),
	"BayesInputs":                      reflect.TypeOf(models.BayesInputs{}),
	"BayesOutput":                      reflect.TypeOf(models.BayesOutput{}),
	"BayesianNetworkModel":             reflect.TypeOf(models.BayesianNetworkModel{}),
	"BayesianNetworkNodes":             reflect.TypeOf(models.BayesianNetworkNodes{}),
	"BinarySimilarity":                 reflect.TypeOf(models.BinarySimilarity{}),
	"BlockIndicator":                   reflect.TypeOf(models.BlockIndicator{}),
	"BoundaryValueMeans":               reflect.TypeOf(models.BoundaryValueMeans{}),
	"BoundaryValues":                   reflect.TypeOf(models.BoundaryValues{}),
	"CategoricalPredictor":             reflect.TypeOf(models.CategoricalPredictor{}),
	"Categories":                       reflect.TypeOf(models.Categories{}),
	"Category":                         reflect.TypeOf(models.Category{}),
	"Characteristic":                   reflect.TypeOf(models.Characteristic{}),
	"Characteristics":                  reflect.TypeOf(models.Characteristics{}),
	"Chebychev":                        reflect.TypeOf(models.Chebychev{}),
	"ChildParent":                      reflect.TypeOf(models.ChildParent{}),
	"CityBlock":                        reflect.TypeOf(models.CityBlock{}),
	"ClassLabels":                      reflect.TypeOf(models.ClassLabels{}),
	"Cluster":                          reflect.TypeOf(models.Cluster{}),
	"ClusteringField":                  reflect.TypeOf(models.ClusteringField{}),
	"ClusteringModel":                  reflect.TypeOf(models.ClusteringModel{}),
	"ClusteringModelQuality":           reflect.TypeOf(models.ClusteringModelQuality{}),
	"Coefficient":                      reflect.TypeOf(models.Coefficient{}),
	"Coefficients":                     reflect.TypeOf(models.Coefficients{}),
	"ComparisonMeasure":                reflect.TypeOf(models.ComparisonMeasure{}),
	"Comparisons":                      reflect.TypeOf(models.Comparisons{}),
	"ComplexPartialScore":              reflect.TypeOf(models.ComplexPartialScore{}),
	"CompoundPredicate":                reflect.TypeOf(models.CompoundPredicate{}),
	"CompoundRule":                     reflect.TypeOf(models.CompoundRule{}),
	"Con":                              reflect.TypeOf(models.Con{}),
	"ConfusionMatrix":                  reflect.TypeOf(models.ConfusionMatrix{}),
	"ConsequentSequence":               reflect.TypeOf(models.ConsequentSequence{}),
	"Constant":                         reflect.TypeOf(models.Constant{}),
	"Constraints":                      reflect.TypeOf(models.Constraints{}),
	"ContStats":                        reflect.TypeOf(models.ContStats{}),
	"ContinuousConditionalProbability": reflect.TypeOf(models.ContinuousConditionalProbability{}),
	"ContinuousDistribution":           reflect.TypeOf(models.ContinuousDistribution{}),
	"ContinuousNode":                   reflect.TypeOf(models.ContinuousNode{}),
	"CorrelationFields":                reflect.TypeOf(models.CorrelationFields{}),
	"CorrelationMethods":               reflect.TypeOf(models.CorrelationMethods{}),
	"CorrelationValues":                reflect.TypeOf(models.CorrelationValues{}),
	"Correlations":                     reflect.TypeOf(models.Correlations{}),
	"CountTable":                       reflect.TypeOf(models.CountTable{}),
	"CountTableType":                   reflect.TypeOf(models.CountTableType{}),
	"Counts":                           reflect.TypeOf(models.Counts{}),
	"Covariances":                      reflect.TypeOf(models.Covariances{}),
	"CovariateList":                    reflect.TypeOf(models.CovariateList{}),
	"DataDictionary":                   reflect.TypeOf(models.DataDictionary{}),
	"DataField":                        reflect.TypeOf(models.DataField{}),
	"Decision":                         reflect.TypeOf(models.Decision{}),
	"DecisionTree":                     reflect.TypeOf(models.DecisionTree{}),
	"Decisions":                        reflect.TypeOf(models.Decisions{}),
	"DefineFunction":                   reflect.TypeOf(models.DefineFunction{}),
	"Delimiter":                        reflect.TypeOf(models.Delimiter{}),
	"DerivedField":                     reflect.TypeOf(models.DerivedField{}),
	"DiscrStats":                       reflect.TypeOf(models.DiscrStats{}),
	"DiscreteConditionalProbability":   reflect.TypeOf(models.DiscreteConditionalProbability{}),
	"DiscreteNode":                     reflect.TypeOf(models.DiscreteNode{}),
	"Discretize":                       reflect.TypeOf(models.Discretize{}),
	"DiscretizeBin":                    reflect.TypeOf(models.DiscretizeBin{}),
	"DocumentTermMatrix":               reflect.TypeOf(models.DocumentTermMatrix{}),
	"Euclidean":                        reflect.TypeOf(models.Euclidean{}),
	"EventValues":                      reflect.TypeOf(models.EventValues{}),
	"ExponentialSmoothing":             reflect.TypeOf(models.ExponentialSmoothing{}),
	"Extension":                        reflect.TypeOf(models.Extension{}),
	"FactorList":                       reflect.TypeOf(models.FactorList{}),
	"False":                            reflect.TypeOf(models.False{}),
	"FieldColumnPair":                  reflect.TypeOf(models.FieldColumnPair{}),
	"FieldRef":                         reflect.TypeOf(models.FieldRef{}),
	"FieldValue":                       reflect.TypeOf(models.FieldValue{}),
	"FieldValueCount":                  reflect.TypeOf(models.FieldValueCount{}),
	"FollowSet":                        reflect.TypeOf(models.FollowSet{}),
	"FrequenciesType":                  reflect.TypeOf(models.FrequenciesType{}),
	"GaussianDistribution":             reflect.TypeOf(models.GaussianDistribution{}),
	"GaussianProcessModel":             reflect.TypeOf(models.GaussianProcessModel{}),
	"GeneralRegressionModel":           reflect.TypeOf(models.GeneralRegressionModel{}),
	"GeneralizedExponentialKernel":     reflect.TypeOf(models.GeneralizedExponentialKernel{}),
	"Header":                           reflect.TypeOf(models.Header{}),
	"Indices":                          reflect.TypeOf(models.Indices{}),
	"InlineTable":                      reflect.TypeOf(models.InlineTable{}),
	"InstanceField":                    reflect.TypeOf(models.InstanceField{}),
	"InstanceFields":                   reflect.TypeOf(models.InstanceFields{}),
	"IntArray":                         reflect.TypeOf(models.IntArray{}),
	"IntegerEntries":                   reflect.TypeOf(models.IntegerEntries{}),
	"IntegerSparseArray":               reflect.TypeOf(models.IntegerSparseArray{}),
	"Interval":                         reflect.TypeOf(models.Interval{}),
	"Item":                             reflect.TypeOf(models.Item{}),
	"ItemRef":                          reflect.TypeOf(models.ItemRef{}),
	"Itemset":                          reflect.TypeOf(models.Itemset{}),
	"Jaccard":                          reflect.TypeOf(models.Jaccard{}),
	"KNNInput":                         reflect.TypeOf(models.KNNInput{}),
	"KNNInputs":                        reflect.TypeOf(models.KNNInputs{}),
	"KohonenMap":                       reflect.TypeOf(models.KohonenMap{}),
	"Lag":                              reflect.TypeOf(models.Lag{}),
	"Lambda":                           reflect.TypeOf(models.Lambda{}),
	"Level":                            reflect.TypeOf(models.Level{}),
	"LiftData":                         reflect.TypeOf(models.LiftData{}),
	"LiftGraph":                        reflect.TypeOf(models.LiftGraph{}),
	"LinearKernelType":                 reflect.TypeOf(models.LinearKernelType{}),
	"LinearNorm":                       reflect.TypeOf(models.LinearNorm{}),
	"LocalTransformations":             reflect.TypeOf(models.LocalTransformations{}),
	"LognormalDistributionForBN":       reflect.TypeOf(models.LognormalDistributionForBN{}),
	"Lower":                            reflect.TypeOf(models.Lower{}),
	"MapValues":                        reflect.TypeOf(models.MapValues{}),
	"MatCell":                          reflect.TypeOf(models.MatCell{}),
	"Matrix":                           reflect.TypeOf(models.Matrix{}),
	"Mean":                             reflect.TypeOf(models.Mean{}),
	"MiningBuildTask":                  reflect.TypeOf(models.MiningBuildTask{}),
	"MiningField":                      reflect.TypeOf(models.MiningField{}),
	"MiningModel":                      reflect.TypeOf(models.MiningModel{}),
	"MiningSchema":                     reflect.TypeOf(models.MiningSchema{}),
	"Minkowski":                        reflect.TypeOf(models.Minkowski{}),
	"MissingValueWeights":              reflect.TypeOf(models.MissingValueWeights{}),
	"ModelExplanation":                 reflect.TypeOf(models.ModelExplanation{}),
	"ModelLiftGraph":                   reflect.TypeOf(models.ModelLiftGraph{}),
	"ModelStats":                       reflect.TypeOf(models.ModelStats{}),
	"ModelVerification":                reflect.TypeOf(models.ModelVerification{}),
	"MultivariateStat":                 reflect.TypeOf(models.MultivariateStat{}),
	"MultivariateStats":                reflect.TypeOf(models.MultivariateStats{}),
	"NaiveBayesModel":                  reflect.TypeOf(models.NaiveBayesModel{}),
	"NearestNeighborModel":             reflect.TypeOf(models.NearestNeighborModel{}),
	"NeuralInput":                      reflect.TypeOf(models.NeuralInput{}),
	"NeuralInputs":                     reflect.TypeOf(models.NeuralInputs{}),
	"NeuralLayer":                      reflect.TypeOf(models.NeuralLayer{}),
	"NeuralNetwork":                    reflect.TypeOf(models.NeuralNetwork{}),
	"NeuralOutput":                     reflect.TypeOf(models.NeuralOutput{}),
	"NeuralOutputs":                    reflect.TypeOf(models.NeuralOutputs{}),
	"Neuron":                           reflect.TypeOf(models.Neuron{}),
	"Node":                             reflect.TypeOf(models.Node{}),
	"NormContinuous":                   reflect.TypeOf(models.NormContinuous{}),
	"NormDiscrete":                     reflect.TypeOf(models.NormDiscrete{}),
	"NormalDistributionForBN":          reflect.TypeOf(models.NormalDistributionForBN{}),
	"NormalizedCountTable":             reflect.TypeOf(models.NormalizedCountTable{}),
	"NumArray":                         reflect.TypeOf(models.NumArray{}),
	"NumericInfo":                      reflect.TypeOf(models.NumericInfo{}),
	"NumericPredictor":                 reflect.TypeOf(models.NumericPredictor{}),
	"OptimumLiftGraph":                 reflect.TypeOf(models.OptimumLiftGraph{}),
	"Output":                           reflect.TypeOf(models.Output{}),
	"OutputField":                      reflect.TypeOf(models.OutputField{}),
	"PCell":                            reflect.TypeOf(models.PCell{}),
	"PCovCell":                         reflect.TypeOf(models.PCovCell{}),
	"PCovMatrix":                       reflect.TypeOf(models.PCovMatrix{}),
	"PMML":                             reflect.TypeOf(models.PMML{}),
	"PPCell":                           reflect.TypeOf(models.PPCell{}),
	"PPMatrix":                         reflect.TypeOf(models.PPMatrix{}),
	"PairCounts":                       reflect.TypeOf(models.PairCounts{}),
	"ParamMatrix":                      reflect.TypeOf(models.ParamMatrix{}),
	"Parameter":                        reflect.TypeOf(models.Parameter{}),
	"ParameterField":                   reflect.TypeOf(models.ParameterField{}),
	"ParameterList":                    reflect.TypeOf(models.ParameterList{}),
	"ParentValue":                      reflect.TypeOf(models.ParentValue{}),
	"Partition":                        reflect.TypeOf(models.Partition{}),
	"PartitionFieldStats":              reflect.TypeOf(models.PartitionFieldStats{}),
	"PoissonDistribution":              reflect.TypeOf(models.PoissonDistribution{}),
	"PolynomialKernelType":             reflect.TypeOf(models.PolynomialKernelType{}),
	"PredictiveModelQuality":           reflect.TypeOf(models.PredictiveModelQuality{}),
	"Predictor":                        reflect.TypeOf(models.Predictor{}),
	"PredictorTerm":                    reflect.TypeOf(models.PredictorTerm{}),
	"Quantile":                         reflect.TypeOf(models.Quantile{}),
	"ROC":                              reflect.TypeOf(models.ROC{}),
	"ROCGraph":                         reflect.TypeOf(models.ROCGraph{}),
	"RadialBasisKernel":                reflect.TypeOf(models.RadialBasisKernel{}),
	"RadialBasisKernelType":            reflect.TypeOf(models.RadialBasisKernelType{}),
	"RandomLiftGraph":                  reflect.TypeOf(models.RandomLiftGraph{}),
	"RealEntries":                      reflect.TypeOf(models.RealEntries{}),
	"RealSparseArray":                  reflect.TypeOf(models.RealSparseArray{}),
	"Regression":                       reflect.TypeOf(models.Regression{}),
	"RegressionModel":                  reflect.TypeOf(models.RegressionModel{}),
	"RegressionTable":                  reflect.TypeOf(models.RegressionTable{}),
	"ResultField":                      reflect.TypeOf(models.ResultField{}),
	"RuleSelectionMethod":              reflect.TypeOf(models.RuleSelectionMethod{}),
	"RuleSet":                          reflect.TypeOf(models.RuleSet{}),
	"RuleSetModel":                     reflect.TypeOf(models.RuleSetModel{}),
	"ScoreDistribution":                reflect.TypeOf(models.ScoreDistribution{}),
	"Scorecard":                        reflect.TypeOf(models.Scorecard{}),
	"SeasonalTrendDecomposition":       reflect.TypeOf(models.SeasonalTrendDecomposition{}),
	"SeasonalityExpoSmooth":            reflect.TypeOf(models.SeasonalityExpoSmooth{}),
	"Segment":                          reflect.TypeOf(models.Segment{}),
	"Segmentation":                     reflect.TypeOf(models.Segmentation{}),
	"Sequence":                         reflect.TypeOf(models.Sequence{}),
	"SequenceGroup":                    reflect.TypeOf(models.SequenceGroup{}),
	"SequenceModel":                    reflect.TypeOf(models.SequenceModel{}),
	"SequenceReference":                reflect.TypeOf(models.SequenceReference{}),
	"SequenceRule":                     reflect.TypeOf(models.SequenceRule{}),
	"SetPredicate":                     reflect.TypeOf(models.SetPredicate{}),
	"SetReference":                     reflect.TypeOf(models.SetReference{}),
	"SigmoidKernelType":                reflect.TypeOf(models.SigmoidKernelType{}),
	"SimpleMatching":                   reflect.TypeOf(models.SimpleMatching{}),
	"SimplePredicate":                  reflect.TypeOf(models.SimplePredicate{}),
	"SimpleRule":                       reflect.TypeOf(models.SimpleRule{}),
	"SimpleSetPredicate":               reflect.TypeOf(models.SimpleSetPredicate{}),
	"SpectralAnalysis":                 reflect.TypeOf(models.SpectralAnalysis{}),
	"SquaredEuclidean":                 reflect.TypeOf(models.SquaredEuclidean{}),
	"StringArray":                      reflect.TypeOf(models.StringArray{}),
	"SupportVector":                    reflect.TypeOf(models.SupportVector{}),
	"SupportVectorMachine":             reflect.TypeOf(models.SupportVectorMachine{}),
	"SupportVectorMachineModel":        reflect.TypeOf(models.SupportVectorMachineModel{}),
	"SupportVectors":                   reflect.TypeOf(models.SupportVectors{}),
	"TableLocator":                     reflect.TypeOf(models.TableLocator{}),
	"Tanimoto":                         reflect.TypeOf(models.Tanimoto{}),
	"Target":                           reflect.TypeOf(models.Target{}),
	"TargetValue":                      reflect.TypeOf(models.TargetValue{}),
	"TargetValueCount":                 reflect.TypeOf(models.TargetValueCount{}),
	"TargetValueCounts":                reflect.TypeOf(models.TargetValueCounts{}),
	"TargetValueStat":                  reflect.TypeOf(models.TargetValueStat{}),
	"TargetValueStats":                 reflect.TypeOf(models.TargetValueStats{}),
	"Targets":                          reflect.TypeOf(models.Targets{}),
	"Taxonomy":                         reflect.TypeOf(models.Taxonomy{}),
	"TestDistributions":                reflect.TypeOf(models.TestDistributions{}),
	"TextCorpus":                       reflect.TypeOf(models.TextCorpus{}),
	"TextDictionary":                   reflect.TypeOf(models.TextDictionary{}),
	"TextDocument":                     reflect.TypeOf(models.TextDocument{}),
	"TextIndex":                        reflect.TypeOf(models.TextIndex{}),
	"TextIndexNormalization":           reflect.TypeOf(models.TextIndexNormalization{}),
	"TextModel":                        reflect.TypeOf(models.TextModel{}),
	"TextModelNormalization":           reflect.TypeOf(models.TextModelNormalization{}),
	"TextModelSimiliarity":             reflect.TypeOf(models.TextModelSimiliarity{}),
	"Time":                             reflect.TypeOf(models.Time{}),
	"TimeAnchor":                       reflect.TypeOf(models.TimeAnchor{}),
	"TimeCycle":                        reflect.TypeOf(models.TimeCycle{}),
	"TimeException":                    reflect.TypeOf(models.TimeException{}),
	"TimeSeries":                       reflect.TypeOf(models.TimeSeries{}),
	"TimeSeriesModel":                  reflect.TypeOf(models.TimeSeriesModel{}),
	"TimeValue":                        reflect.TypeOf(models.TimeValue{}),
	"Timestamp":                        reflect.TypeOf(models.Timestamp{}),
	"TrainingInstances":                reflect.TypeOf(models.TrainingInstances{}),
	"TransformationDictionary":         reflect.TypeOf(models.TransformationDictionary{}),
	"TreeModel":                        reflect.TypeOf(models.TreeModel{}),
	"TrendExpoSmooth":                  reflect.TypeOf(models.TrendExpoSmooth{}),
	"TriangularDistributionForBN":      reflect.TypeOf(models.TriangularDistributionForBN{}),
	"True":                             reflect.TypeOf(models.True{}),
	"UniformDistribution":              reflect.TypeOf(models.UniformDistribution{}),
	"UniformDistributionForBN":         reflect.TypeOf(models.UniformDistributionForBN{}),
	"UnivariateStats":                  reflect.TypeOf(models.UnivariateStats{}),
	"Upper":                            reflect.TypeOf(models.Upper{}),
	"Value":                            reflect.TypeOf(models.Value{}),
	"ValueProbability":                 reflect.TypeOf(models.ValueProbability{}),
	"Variance":                         reflect.TypeOf(models.Variance{}),
	"VectorDictionary":                 reflect.TypeOf(models.VectorDictionary{}),
	"VectorFields":                     reflect.TypeOf(models.VectorFields{}),
	"VectorInstance":                   reflect.TypeOf(models.VectorInstance{}),
	"VerificationField":                reflect.TypeOf(models.VerificationField{}),
	"VerificationFields":               reflect.TypeOf(models.VerificationFields{}),
	"XCoordinates":                     reflect.TypeOf(models.XCoordinates{}),
	"YCoordinates":                     reflect.TypeOf(models.YCoordinates{}),
}
