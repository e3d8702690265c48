"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
S='src/flowMC/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],
        state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
        mechanism=[dict(name=a,where=S+b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))

prop('P01','The sampling run executes the requested strategies in order, threading state',
 "A sampling run executes exactly the strategies named in the requested order, one execution per occurrence; the first receives the sampler's random key and the caller's initial position, each later one receives the key, resources and positions its predecessor returned, and all receive the caller's data unchanged. A name that is not an available strategy raises an error naming it when it is reached: everything before it has run and nothing after it runs. Explicitly given resources and strategies take precedence over a bundle, giving neither is refused, and overriding a setting of one sampler changes that sampler only.",
 ['programs','configurations'],'every list of strategy names (repetitions, unknown names anywhere, empty list), every mix of strategies that replace key, resources or positions, every way of constructing the sampler',
 'The tests run two or three fixed bundles end to end and look only at shapes or at a final histogram; they never observe what each strategy was handed.',
 ['Sampler.py','strategy/lambda_function.py','strategy/update_state.py'],
 [('loop over the strategy order','Sampler.py:Sampler.sample'),('choice between resources/strategies and bundle','Sampler.py:Sampler.__init__')],
 [('strategy_order','names still to be executed','Sampler.py'),('resources','named resources threaded through the strategies','Sampler.py')],
 ['arguments and results of every strategy call'])

prop('P02','Samples are recorded contiguously, in order, without loss or overwriting',
 "Each step-taking call appends, at the position the stepper had reached, the states of every chain at every thinning-th step starting with the first, exactly (number of steps divided by the thinning, rounded down) of them, and then advances by that number; positions, log-probabilities and acceptances are recorded at the same rows and columns. No call changes an entry recorded earlier, nor any entry beyond the ones it appends, nor any buffer other than the three it was directed to, as long as the buffers have room.",
 ['histories','configurations'],'every sequence of local and global stepping calls, repositionings and redirections between buffer sets, for every step count, thinning (dividing or not) and number of chains',
 'The unit tests call a stepper once with thinning 1 and compare shapes; loss needs thinning that does not divide the step count, several calls, or two steppers sharing buffers.',
 ['strategy/take_steps.py','resource/buffers.py'],
 [('slice, write and advance at the end of every stepping call','strategy/take_steps.py:TakeSteps.__call__'),('in-place slice update along the cursor dimension','resource/buffers.py:Buffer.update_buffer')],
 [('current_position','next column to be written','strategy/take_steps.py:TakeSteps')],
 ['buffer contents before and after every stepping call'])

prop('P03','Each record is one real state: its log-prob and acceptance flag belong to it',
 "At every recorded row and column the log-probability is the value of the caller's target, with the caller's data, at the recorded position, and, when every step is recorded, the acceptance flag is set exactly when that step moved the chain to a new proposal: a step flagged as rejected leaves position and log-probability as they were. This holds for every local and global kernel, any number of chains and any batching.",
 ['inputs','configurations','histories'],'every target, starting point, data, kernel (random walk, Langevin, Hamiltonian, flow proposal) and call sequence, including calls that mix local and global steps',
 'The tests only check acceptance rates or marginal moments, which a log-probability of the wrong state (previous, proposed, other chain) does not disturb.',
 ['strategy/take_steps.py','resource/kernel/MALA.py','resource/kernel/HMC.py','resource/kernel/Gaussian_random_walk.py','resource/kernel/NF_proposal.py'],
 [('selection of position and log-prob with the same accept flag','resource/kernel/MALA.py:MALA.kernel'),('carry of (position, log-prob) through the steps','strategy/take_steps.py:TakeSerialSteps.sample'),('n_steps passed beside the data','strategy/take_steps.py:TakeGroupSteps.sample')],
 (),['the three buffers after stepping calls with the real kernels'])

prop('P04','Chains continue where they stopped, independently, whatever the batching',
 "Within a stepping call each chain starts from the position it was given, each step starts from the state (position and its log-probability) the previous step produced, and the call hands on, per chain, the state of that same chain at its last thinning-th step. The trajectory of a chain is not influenced by the other chains, and splitting the chains into batches of any size changes nothing in the result.",
 ['inputs','configurations','histories'],'every number of chains, batch size (dividing or not, larger than the number of chains), step count, thinning, and sequence of calls',
 'One unit test compares shapes for one batch size; crossing of chains or a lost carry shows only in values that the tests do not look at.',
 ['strategy/take_steps.py'],
 [('per-chain vmap and concatenation of chain batches','strategy/take_steps.py:TakeSteps.__call__'),('scan carry of key, position and log-prob','strategy/take_steps.py:TakeSerialSteps')],
 (),['positions passed to and returned by kernels and stepping calls'])

prop('P05','Training and production are separated, and production is frozen',
 "In a ready-made sampler configuration, all samples taken before the switch to production go to the training buffers and all later ones to the production buffers, the flow is trained only before the switch and only on training samples, and every global step proposes from the flow as most recently trained. After the switch the flow, the optimizer state, the loss history, the training buffers and the temperature ladder do not change any more.",
 ['configurations','histories'],'every bundle configuration: numbers of training and production loops (zero included), steps, thinnings, epochs, with and without parallel tempering',
 'The bundle tests construct the bundle and check types; nothing checks what is written where, when, or with which model, over a whole run.',
 ['resource_strategy_bundle/RQSpline_MALA.py','resource_strategy_bundle/RQSpline_MALA_PT.py','strategy/update_state.py','strategy/train_model.py','strategy/parallel_tempering.py'],
 [('order of strategies in the two phases','resource_strategy_bundle/RQSpline_MALA.py:strategy_order'),('redirection of the target buffers','resource_strategy_bundle/RQSpline_MALA.py:update_state'),('copy of the trained model into the global proposal','resource_strategy_bundle/RQSpline_MALA.py:update_model')],
 [('sampler_state','where samples go, and whether training is on','resource_strategy_bundle/RQSpline_MALA.py')],
 ['all resources after every strategy of a bundle run'])

prop('P06','A bundle run fills its buffers exactly, each segment by the right sampler',
 "For every configuration, a run of a ready-made sampler leaves every position and log-probability entry of the training and production buffers written exactly once, in chronological order loop by loop, local samples before global ones; local acceptances are recorded exactly at the columns of local samples and global acceptances exactly at those of global samples. The loss history has one entry per epoch of every training loop, in order.",
 ['configurations'],'every combination of chains, dimensions, local/global steps, thinnings, training/production loops, epochs and chain batching, with and without parallel tempering',
 'The tests use one configuration and never look at the buffers of a completed run; an off-by-one in sizes is silently clamped by the buffer update.',
 ['resource_strategy_bundle/RQSpline_MALA.py','resource_strategy_bundle/RQSpline_MALA_PT.py','strategy/take_steps.py','strategy/train_model.py'],
 [('buffer sizes computed from the configuration','resource_strategy_bundle/RQSpline_MALA.py:__init__'),('hand-over of the write position between the two steppers','resource_strategy_bundle/RQSpline_MALA.py:update_global_step')],
 [('current_position','write position of the two steppers','strategy/take_steps.py'),('cursor','write position of the loss history','strategy/train_model.py')],
 ['buffers after every strategy of a bundle run'])

prop('P07','Randomness is never reused, and runs are reproducible',
 "Within a run no two random decisions are driven by the same random key: every step of every chain, replica, exchange, training shuffle and optimization draws its own randomness, and the key handed on is fresh. Given the same key, inputs and configuration every component returns identical results, different keys give different results, and calls do not change the arrays, keys or data passed to them.",
 ['histories','configurations','inputs'],'every sequence of component calls, every key, number of chains, steps and batching',
 'A few tests compare two runs with one key; correlations between chains, steps or decisions from key reuse leave means and variances untouched.',
 ['strategy/take_steps.py','strategy/parallel_tempering.py','strategy/train_model.py','strategy/optimization.py','resource/kernel/NF_proposal.py','resource/model/nf_model/base.py'],
 [('split before every use','strategy/take_steps.py:TakeSteps.__call__'),('split per chain, replica and exchange','strategy/parallel_tempering.py:ParallelTempering.__call__'),('split per epoch','resource/model/nf_model/base.py:NFModel.train')],
 (),['keys handed to kernels and models; keys returned by strategies'])

prop('P08','Random-walk and Langevin steps are exact Metropolis-Hastings steps',
 "A random-walk step proposes the current position plus Gaussian noise of the configured step size; a Langevin step proposes the current position drifted by half the squared step size times the gradient of the target, plus Gaussian noise of the configured step size. Each accepts with probability min(1, target ratio times the ratio of reverse to forward proposal densities), independently of the proposal noise, so the target is left invariant for every step size.",
 ['inputs'],'every differentiable target, position, step size, dimension and random key',
 'The tests look at acceptance rates near 1 and at two moments of one Gaussian; a missing or mis-signed correction biases the chain by amounts that they cannot see.',
 ['resource/kernel/MALA.py','resource/kernel/Gaussian_random_walk.py'],
 [('drift, noise and acceptance ratio','resource/kernel/MALA.py:MALA.kernel'),('symmetric proposal and acceptance ratio','resource/kernel/Gaussian_random_walk.py:GaussianRandomWalk.kernel')],
 (),['position, log-probability and flag returned by one kernel step'])

prop('P09','Hamiltonian steps are exact for every metric, step size and length',
 "A Hamiltonian step draws a momentum from the Gaussian whose precision is the configured metric, integrates Hamilton's equations of that same metric and the target with the reversible, volume-preserving leapfrog scheme over the configured number of steps, and accepts with probability min(1, exp(initial minus final total energy)). The target is therefore left invariant for every positive-definite metric (scalar, diagonal or full), step size and number of leapfrog steps.",
 ['inputs','configurations'],'every differentiable target, position, metric, step size, number of leapfrog steps and key',
 'The tests use an identity metric, where errors in the kinetic energy, the momentum distribution or its transposition cancel.',
 ['resource/kernel/HMC.py'],
 [('momentum draw','resource/kernel/HMC.py:HMC.kernel'),('leapfrog integration','resource/kernel/HMC.py:HMC.leapfrog_step'),('acceptance from the energy difference','resource/kernel/HMC.py:HMC.kernel')],
 (),['position, log-probability and flag returned by one kernel step; leapfrog end points'])

prop('P10','Global flow steps are exact independence Metropolis-Hastings steps',
 "A sequence of global steps proposes independent draws from the current flow, each with its own flow density and its own target value, and accepts proposal k with probability min(1, target ratio times inverse flow-density ratio) relative to the state after step k-1; the first comparison is against the state the chain was in. The result does not depend on how the proposals are batched, for every number of steps and batch size.",
 ['inputs','configurations'],'every target, flow, start, number of steps, proposal batch size (dividing, not dividing, larger) and key',
 'The tests run one flow with the default batch size and look at shapes; a mispaired density, a stale reference state or a batching slip needs values to be seen.',
 ['resource/kernel/NF_proposal.py'],
 [('batched drawing of proposals with their densities','resource/kernel/NF_proposal.py:NFProposal.sample_flow'),('batched target evaluation','resource/kernel/NF_proposal.py:NFProposal.kernel'),('sequential accept loop','resource/kernel/NF_proposal.py:body')],
 (),['positions, log-probabilities and flags returned by one call'])

prop('P11','Invalid or impossible proposals are always rejected, and harmlessly',
 "Whenever the target at a proposal is zero or undefined (log-probability minus infinity or not-a-number), or the acceptance ratio is undefined, the step is rejected: the chain keeps its finite position and log-probability, the flag says rejected, other chains and later steps are unaffected. A finite chain therefore never reaches or records a non-finite log-probability; a chain starting from minus infinity accepts the first valid symmetric proposal.",
 ['inputs','fault_sequences'],'every pattern of valid and invalid target values along the proposals, for all kernels and for replica exchange',
 'No test uses a target with a boundary or failing values.',
 ['resource/kernel/MALA.py','resource/kernel/HMC.py','resource/kernel/Gaussian_random_walk.py','resource/kernel/NF_proposal.py','strategy/parallel_tempering.py'],
 [('comparison log-uniform < ratio, false for NaN','resource/kernel/MALA.py:MALA.kernel'),('same comparison for exchanges','strategy/parallel_tempering.py:_exchange_step_body')],
 (),['state and flag after steps against targets with invalid regions'])

prop('P12','Replica exchange permutes neighbours with the exact acceptance rule and persists',
 "A parallel-tempering call moves every replica of every chain by the configured number of kernel steps on its own tempered target, then attempts one exchange per adjacent pair from the coldest up, swapping with probability min(1, exp((1/T_cold - 1/T_hot)(logL_hot - logL_cold))) for the untempered log-likelihoods of the two states then in the pair. The states after the exchange are a permutation of those before within each chain; the coldest is handed on and the others are where the hot replicas resume in the next call, in training and in production.",
 ['inputs','histories','configurations'],'every ladder, number of chains and replicas, likelihood values, sequence of calls and phase',
 'The unit tests check shapes, and that something changed; a wrong sign, a stale likelihood after a swap or replicas that do not persist keep the shapes.',
 ['strategy/parallel_tempering.py'],
 [('per-replica kernel steps','strategy/parallel_tempering.py:_ensemble_step'),('sequential exchange sweep','strategy/parallel_tempering.py:_exchange'),('write-back of the hot replicas','strategy/parallel_tempering.py:ParallelTempering.__call__')],
 [('tempered_positions','positions of the hot replicas between calls','resource_strategy_bundle/RQSpline_MALA_PT.py')],
 ['positions returned and tempered buffer after every call'])

prop('P13','The temperature ladder adapts only in training, keeping its ends and its order',
 "The coldest temperature is always exactly one and the hottest always the configured maximum, and the ladder stays strictly increasing. During training each interior gap grows when the exchange at its lower rung is accepted more often than the one above, shrinks when less often and keeps its size when equally often; outside training the ladder never changes.",
 ['histories','inputs'],'every history of exchange outcomes, ladder, number of chains and phase switches',
 'One unit test calls the adaptation once and checks the shape of the result.',
 ['strategy/parallel_tempering.py','resource_strategy_bundle/RQSpline_MALA_PT.py'],
 [('adaptation from acceptance rates','strategy/parallel_tempering.py:_adapt_temperature'),('gate on the training flag','strategy/parallel_tempering.py:ParallelTempering.__call__'),('initial ladder','resource_strategy_bundle/RQSpline_MALA_PT.py')],
 [('temperatures','the ladder','resource_strategy_bundle/RQSpline_MALA_PT.py')],
 ['temperature buffer after every call'])

prop('P14','Tempered targets scale the likelihood only; temperature one is the posterior',
 "The tempered log-density at temperature T is the log-likelihood divided by T plus the log-prior; at temperature one it is the posterior, and the likelihood used for exchanges is the untempered one without the prior. In a ready-made parallel-tempering configuration the coldest replica, the local steps and the global steps all leave the same distribution invariant.",
 ['inputs','configurations'],'every likelihood, prior, temperature (also arrays), position and data; every parallel-tempering bundle configuration including one with a prior',
 'One test evaluates one temperature vector at one point with a constant prior, for which most mistakes agree.',
 ['resource/logPDF.py','resource_strategy_bundle/RQSpline_MALA_PT.py'],
 [('tempered density','resource/logPDF.py:TemperedPDF.tempered_log_pdf'),('choice of targets in the bundle','resource_strategy_bundle/RQSpline_MALA_PT.py')],
 (),['values of the target resources; targets seen by each strategy'])

prop('P15','Training data are recent, valid samples of every chain, and nothing else',
 "The examples handed to flow training are all drawn (with replacement, uniformly, the configured number of them) from the most recent recorded and entirely finite samples of each chain, at most the configured history length per chain; unfilled or non-finite entries never become training data. This holds however full the buffer is and whether or not chains have equal numbers of valid samples.",
 ['histories','configurations','inputs'],'every fill level, pattern of non-finite samples, history length, number of examples, number of chains',
 'The tests fill the whole buffer with one distribution and check only that the loss decreases.',
 ['strategy/train_model.py'],
 [('selection of finite, recent samples','strategy/train_model.py:TrainModel.__call__'),('random choice of examples','strategy/train_model.py:TrainModel.__call__')],
 (),['data passed to the training of the model resource'])

prop('P16','Training passes over the data in disjoint batches and keeps the best epoch',
 "Every epoch of training visits a random order of the examples in disjoint batches of the configured size, dropping only an incomplete last batch, or uses all examples in one batch when there are fewer than one batch; successive batches continue from the parameters and optimizer state of the previous one. The reported loss history has one entry per epoch, the loss of that epoch's last batch, and the returned model and optimizer state are those at the end of the epoch with the lowest loss (the first such; a loss that is not a number or plus infinity never counts), or the unchanged originals if there is none.",
 ['inputs','configurations','histories'],'every number of examples, batch size, number of epochs and sequence of losses (ties, non-finite values, worsening losses); both kinds of flow',
 'The tests train a real flow and check that the loss drops; which epoch is returned and which rows were used cannot be told from that.',
 ['resource/model/nf_model/base.py','resource/model/flowmatching/base.py','strategy/train_model.py'],
 [('epoch and batch loops','resource/model/nf_model/base.py:NFModel.train_epoch'),('best model bookkeeping','resource/model/nf_model/base.py:NFModel.train'),('same loops for flow matching','resource/model/flowmatching/base.py:FlowMatchingModel.train'),('loss history','strategy/train_model.py:TrainModel.__call__')],
 (),['batches seen by the loss, values returned by training'])

prop('P17','Training changes trainable parameters only; whitening follows the training data',
 "Training never alters the parts of a flow that are not trainable: coupling masks, spline ranges and other constants, and a non-learnable base distribution stay bit-identical however long the training; the stored data mean and covariance are exactly those of the latest training data. Optimization follows the negative gradient of the mean negative log-density of the batch, with the gradient norm clipped, so an example set the flow fits less well changes the parameters in the direction that raises its density.",
 ['inputs','histories'],'every flow type, base distribution, learning rate, number of training calls and data set',
 'No test compares the non-trainable parts before and after training.',
 ['resource/model/nf_model/base.py','resource/optimizer.py','resource/model/common.py','resource/model/nf_model/realNVP.py','resource/model/nf_model/rqSpline.py'],
 [('stop_gradient accessors','resource/model/common.py:MaskedCouplingLayer.mask'),('optimizer chain','resource/optimizer.py:Optimizer.__init__'),('statistics set at the start of training','resource/model/nf_model/base.py:NFModel.train')],
 (),['leaves of the model before and after training'])

prop('P18','Flow transformations are bijections with exact log-determinants',
 "For every flow and every layer, applying the forward map and then the inverse map (or the other way round) returns the starting point, the two log-determinants cancel, and the log-determinant equals the log of the absolute Jacobian determinant of the map. This holds for freshly initialized, trained and arbitrarily parametrized models, inside, outside and at the boundaries of the spline range.",
 ['inputs','histories'],'every point, parameter setting, number of features and layers, masks, before and after any amount of training',
 'The tests check freshly initialized near-identity flows at points near the origin, where ordering, masking and sign errors vanish.',
 ['resource/model/nf_model/rqSpline.py','resource/model/nf_model/realNVP.py','resource/model/common.py'],
 [('scan over layers, reversed in the inverse','resource/model/nf_model/rqSpline.py:MaskedCouplingRQSpline.inverse'),('coupling with a mask','resource/model/common.py:MaskedCouplingLayer'),('spline and its inverse','resource/model/nf_model/rqSpline.py:_rational_quadratic_spline_inv')],
 (),['forward and inverse of models and layers'])

prop('P19','A flow samples from exactly the density it reports',
 "For every flow (coupling flows and flow matching, any base distribution, before and after training) the density reported for a point integrates to one and is the density of the points the flow generates; a request for n samples gives n points. For coupling flows a generated point is the de-whitened inverse image of a draw of the base distribution, and the reported log-density is the base log-density at the forward image of the whitened point plus the log-determinants of the transformation and of the whitening.",
 ['inputs','histories','configurations'],'every model type, parameter setting, base distribution, data mean and covariance, dimension and number of samples',
 'The tests check shapes and finiteness; a density that is off by a factor or belongs to other points stays finite.',
 ['resource/model/nf_model/rqSpline.py','resource/model/nf_model/realNVP.py','resource/model/flowmatching/base.py','resource/model/common.py'],
 [('log_prob and sample','resource/model/nf_model/rqSpline.py:MaskedCouplingRQSpline.log_prob'),('log_prob and sample','resource/model/nf_model/realNVP.py:RealNVP.log_prob'),('backward ODE with divergence','resource/model/flowmatching/base.py:Solver.log_prob'),('distributions','resource/model/common.py:Gaussian')],
 (),['log-densities on grids against samples'])

prop('P20','Flow matching integrates its velocity field and regresses the path velocity',
 "A flow-matching model generates samples by carrying standard-normal draws from time zero to time one along its velocity field in steps of the requested size, and its log-density carries a point back along the same field, accumulating the divergence. Training pairs are interpolated as path points with their exact time derivative, starting at the noise sample at time zero and ending at the whitened data sample at time one, and the loss is the mean squared difference between the field at the path point and that derivative.",
 ['inputs','configurations'],'every velocity field, time, pair of end points, whitening statistics and batch',
 'The tests check shapes, finiteness and the scheduler at a few times; the interpolation and the regression target are never compared with what they should be.',
 ['resource/model/flowmatching/base.py'],
 [('forward and backward ODE','resource/model/flowmatching/base.py:Solver'),('path and scheduler','resource/model/flowmatching/base.py:Path'),('loss and batching','resource/model/flowmatching/base.py:FlowMatchingModel')],
 (),['samples, log-densities, path points, batches and losses'])

prop('P21','Saved resources load back as they were',
 "Saving a buffer, a state or a flow and loading it again restores everything that determines its behaviour: name, contents, shape, write cursor and its dimension for buffers, all entries with their types for states, all parameters and data statistics for flows. Saving changes nothing in the saved object, and a loaded resource behaves identically in all later operations.",
 ['histories','inputs'],'every resource contents and history of updates before saving, and of operations after loading',
 'The tests never load a buffer or a state, and compare one output of one loaded flow-matching model.',
 ['resource/buffers.py','resource/states.py','resource/model/nf_model/base.py','resource/model/flowmatching/base.py'],
 [('save and load','resource/buffers.py:Buffer.save_resource'),('save and load','resource/states.py:State.load_resource'),('serialisation of leaves','resource/model/nf_model/base.py:NFModel.save_model')],
 (),['loaded objects compared with the saved ones'])

prop('P22','Buffers, states and targets do exactly what is asked of them, in place',
 "A buffer starts out entirely unset (minus infinity) with the requested shape; an update at a start index replaces exactly the addressed slab along the buffer's cursor dimension, keeps everything else, and is visible to every holder of the buffer. Updating a state sets exactly the given keys to the given values and keeps the others; a target resource evaluates the function it was given, on the position and data it is given, with as many dimensions as declared.",
 ['histories','inputs'],'every shape, cursor dimension, sequence of updates within bounds, keys and values',
 'The tests make one or two updates along the first dimension.',
 ['resource/buffers.py','resource/states.py','resource/logPDF.py','strategy/update_state.py','strategy/lambda_function.py'],
 [('slice update','resource/buffers.py:Buffer.update_buffer'),('dictionary update','resource/states.py:State.update'),('delegation','resource/logPDF.py:LogPDF.__call__')],
 [('data','contents','resource/buffers.py:Buffer')],
 ['contents after every operation'])

prop('P23','Optimization respects its bounds, climbs the target and treats chains separately',
 "The optimizing strategy returns one point per chain that lies within the given bounds (per-dimension or shared) in every dimension, obtained by the configured number of Adam steps on the noisy gradient of the negative target from that chain's own start, and the reported final log-probabilities are those of the returned points. Without noise the first step moves every unclipped coordinate uphill by the learning rate, and a constant gradient keeps doing so; zero steps return the start; incompatible bounds are refused, and resources are left unchanged.",
 ['inputs','configurations'],'every target, start, bounds, learning rate, noise level, number of steps and chains',
 'The tests run one target from one start set and check that the average log-probability improved.',
 ['strategy/optimization.py'],
 [('gradient step and projection','strategy/optimization.py:AdamOptimization.optimize'),('validation of bounds','strategy/optimization.py:AdamOptimization.__init__')],
 (),['optimized positions and log-probabilities'])

prop('P24','Strategies touch only what they are configured with and depend on nothing else',
 "What a strategy produces is determined by the key, positions and data it is handed and by the resources it was configured with by name (and, for the steppers, their own write position): two runs that differ only in other resources, in the names given to resources, in the order or number of resources, in verbosity, or in what the same strategy objects were used for before give exactly the same results, and a difference in something a strategy is configured with (kernel, flow, optimizer, replicas, ladder, data, key) does take effect. A strategy changes nothing but its configured outputs: local and global steps the three recording buffers of the current phase, tempering its replicas and (in training only) the ladder, training the flow, its optimizer and the loss history.",
 ['programs','configurations','histories'],'every program of strategies (local and global steps, tempering, training, optimization, state changes, callbacks) in any order, every set of things that start out different, every naming of the resources, repeated use of the same strategy objects',
 'A dependence on the wrong resource or on an earlier call never shows in a single run: it takes two runs that agree on everything the strategy may look at and differ elsewhere.',
 ['Sampler.py','strategy/take_steps.py','strategy/parallel_tempering.py','strategy/train_model.py','strategy/optimization.py','strategy/update_state.py','strategy/lambda_function.py'],
 [('look-up of resources by configured name','strategy/take_steps.py:TakeSteps.__call__'),('look-up and write-back of replicas and ladder','strategy/parallel_tempering.py:ParallelTempering.__call__'),('look-up and write-back of flow, optimizer and losses','strategy/train_model.py:TrainModel.__call__')],
 [('resources','named resources threaded through the strategies','Sampler.py')],
 ['all resources, the key and the positions before and after every strategy'])

prop('P25','A ready-made sampler does what each of its options says',
 "Every option of a ready-made sampler takes effect exactly as given. Local steps use the given step size; the flow has the given layers, bins and hidden units and starts from weights that depend on the given key only; each training loop uses the given learning rate, batch size, number of epochs and number of examples, drawn, where a history window is offered, from all of the most recent recorded columns within it and no earlier ones. With tempering, the ladder has the given number of temperatures from one to the given maximum, the hot replicas start at the caller's initial positions, and before the local steps of every loop, in training and production alike, every replica moves by the given number of tempered steps (the number of local steps if none is given). Chains are processed in groups no larger than a given chain batch size above one and flow proposals drawn in batches no larger than given.",
 ['configurations'],'every combination of options of both ready-made samplers',
 'The tests construct each ready-made sampler with one set of options and check that it runs; an option that is ignored, mixed up with another or replaced by its default goes unnoticed.',
 ['resource_strategy_bundle/RQSpline_MALA.py','resource_strategy_bundle/RQSpline_MALA_PT.py','strategy/take_steps.py','resource/kernel/NF_proposal.py','strategy/train_model.py','resource/optimizer.py'],
 [('assembly of resources, strategies and their order','resource_strategy_bundle/RQSpline_MALA_PT.py:RQSpline_MALA_PT_Bundle.__init__'),('assembly without tempering','resource_strategy_bundle/RQSpline_MALA.py:RQSpline_MALA_Bundle.__init__')],
 [('tempered_positions','hot replicas','resource_strategy_bundle/RQSpline_MALA_PT.py')],
 ['resources after every strategy of complete runs; the parts a bundle builds'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
