// Reference model: the planning rounds shared by the highway planners.
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM3D.h"

namespace spec {
using namespace hrm;
using namespace hrm::planners;
using VI = VertexIdx;

template <class R, class O>
using Hrm = HighwayRoadMap<R, O>;

// build once, search once, then refine while unsolved and in time
template <class R, class O>
void plan(Hrm<R, O>& self, const double timeLim) {
    const auto t0 = Clock::now();
    self.buildRoadmap();
    const auto t1 = Clock::now();
    self.res_.planningTime.buildTime += Durationd(t1 - t0).count();
    const auto t2 = Clock::now();
    self.search();
    const auto t3 = Clock::now();
    self.res_.planningTime.searchTime += Durationd(t3 - t2).count();
    self.res_.planningTime.totalTime = self.res_.planningTime.buildTime + self.res_.planningTime.searchTime;
    while (!self.res_.solved && self.res_.planningTime.totalTime < timeLim) {
        self.refineExistRoadmap(timeLim);
    }
    if (self.res_.solved) {
        self.res_.solutionPath.solvedPath = self.getSolutionPath();
        self.res_.solutionPath.interpolatedPath = self.getInterpolatedSolutionPath(self.param_.numPoint);
    }
}

template <class R, class O>
void build(Hrm<R, O>& self) {
    self.sampleOrientations();
    for (size_t i = 0; i < self.param_.numSlice; ++i) {
        self.constructOneSlice(i);
        self.numVertex_.slice = self.res_.graphStructure.vertex.size();
        self.vertexIdx_.push_back(self.numVertex_);
    }
    self.connectMultiSlice();
}

template <class R, class O>
void refine(Hrm<R, O>& self, const double timeLim) {
    self.isRefine_ = true;
    self.vertexIdxAll_.push_back(self.vertexIdx_);
    self.vertexIdx_.clear();
    self.param_.numLineX = 2 * self.param_.numLineX;
    self.param_.numLineY = 2 * self.param_.numLineY;
    for (size_t i = 0; i < self.param_.numSlice; ++i) {
        const auto t0 = Clock::now();
        self.constructOneSlice(i);
        self.numVertex_.slice = self.res_.graphStructure.vertex.size();
        self.vertexIdx_.push_back(self.numVertex_);
        self.connectExistSlice(i);
        const auto t1 = Clock::now();
        self.res_.planningTime.buildTime += Durationd(t1 - t0).count();
        const auto t2 = Clock::now();
        self.search();
        const auto t3 = Clock::now();
        self.res_.planningTime.searchTime += Durationd(t3 - t2).count();
        self.res_.planningTime.totalTime = self.res_.planningTime.buildTime + self.res_.planningTime.searchTime;
        if (self.res_.solved || self.res_.planningTime.totalTime > timeLim) {
            return;
        }
    }
    self.isRefine_ = false;
}

// graph of all connections with their own weights; chain of predecessors from
// the vertex near the goal back to the one near the start, reversed
template <class R, class O>
void searchGraph(Hrm<R, O>& self) {
    const size_t n = self.res_.graphStructure.vertex.size();
    AdjGraph g(n);
    for (size_t i = 0; i < self.res_.graphStructure.edge.size(); ++i) {
        const auto& e = self.res_.graphStructure.edge[i];
        boost::add_edge(Index(e.first), Index(e.second), Weight(self.res_.graphStructure.weight[i]), g);
    }
    const std::vector<Vertex> from =
        self.getNearestNeighborsOnGraph(self.start_, self.param_.numSearchNeighbor, self.param_.searchRadius);
    const std::vector<Vertex> to =
        self.getNearestNeighborsOnGraph(self.goal_, self.param_.numSearchNeighbor, self.param_.searchRadius);
    for (const Vertex& s : from) {
        for (const Vertex& t : to) {
            std::vector<Vertex> pred(num_vertices(g));
            std::vector<double> dist(num_vertices(g));
            try {
                boost::astar_search(
                    g, s,
                    [&self, t](Vertex v) {
                        return vectorEuclidean(self.res_.graphStructure.vertex[v], self.res_.graphStructure.vertex[t]);
                    },
                    boost::predecessor_map(
                        boost::make_iterator_property_map(pred.begin(), get(boost::vertex_index, g)))
                        .distance_map(make_iterator_property_map(dist.begin(), get(boost::vertex_index, g)))
                        .visitor(AStarGoalVisitor<Vertex>(t)));
            } catch (AStarFoundGoal) {
                auto& path = self.res_.solutionPath.PathId;
                self.res_.solutionPath.cost = dist[t];
                Index k = 0;
                path.push_back(int(t));
                for (; path[k] != int(s) && k <= n; ++k) {
                    path.push_back(int(pred[size_t(path[k])]));
                }
                std::reverse(path.begin(), path.end());
                if (k != n + 1) {
                    self.res_.solved = true;
                    return;
                }
                path.clear();
                self.res_.solutionPath.cost = INFINITY;
            }
        }
    }
}

template <class R, class O>
std::vector<std::vector<Coordinate>> solution(Hrm<R, O>& self) {
    const size_t n = self.res_.graphStructure.vertex.at(0).size();
    self.start_.resize(n);
    self.goal_.resize(n);
    std::vector<std::vector<Coordinate>> path{self.start_};
    for (size_t i = 0; i < self.res_.solutionPath.PathId.size(); ++i) {
        path.push_back(self.res_.graphStructure.vertex.at(size_t(self.res_.solutionPath.PathId[i])));
    }
    path.push_back(self.goal_);
    return path;
}

// a connection and its cost are recorded together
template <class R, class O>
void join(Hrm<R, O>& self, Index a, Index b) {
    auto& g = self.res_.graphStructure;
    g.edge.push_back(std::make_pair(a, b));
    g.weight.push_back(vectorEuclidean(g.vertex[a], g.vertex[b]));
}

template <class R, class O>
void detour(Hrm<R, O>& self, const Index a, const Index b) {
    auto& g = self.res_.graphStructure;
    const std::vector<Coordinate> v1 = g.vertex.at(a);
    const std::vector<Coordinate> v2 = g.vertex.at(b);
    std::vector<Coordinate> m1 = v1;
    m1.at(2) = v2.at(2);
    std::vector<Coordinate> m2 = v2;
    m2.at(2) = v1.at(2);
    const bool first = self.isSameSliceTransitionFree(v1, m1) && self.isSameSliceTransitionFree(m1, v2);
    if (!first && !(self.isSameSliceTransitionFree(v1, m2) && self.isSameSliceTransitionFree(m2, v2))) {
        return;
    }
    const std::vector<Coordinate> m = first ? m1 : m2;
    const int c = g.vertex.size();
    g.vertex.push_back(m);
    g.edge.push_back(std::make_pair(a, c));
    g.edge.push_back(std::make_pair(c, b));
    g.weight.push_back(vectorEuclidean(v1, m));
    g.weight.push_back(vectorEuclidean(m, v2));
}

template <class R, class O>
void connectSlice(Hrm<R, O>& self, const FreeSegment2D& seg) {
    auto& g = self.res_.graphStructure;
    for (size_t i = 0; i < seg.ty.size(); ++i) {
        const Index a = self.numVertex_.plane.at(i);
        for (size_t j = 0; j < seg.xM[i].size(); ++j) {
            // touching pieces of one free segment
            if (j + 1 != seg.xM[i].size() && std::fabs(seg.xU[i][j] - seg.xL[i][j + 1]) < 1e-6) {
                g.edge.push_back(std::make_pair(a + j, a + j + 1));
                g.weight.push_back(vectorEuclidean(g.vertex[a + j], g.vertex[a + j + 1]));
            }
            if (i + 1 == seg.ty.size()) {
                continue;
            }
            const Index b = self.numVertex_.plane.at(i + 1);
            for (size_t k = 0; k < seg.xM[i + 1].size(); ++k) {
                if (!self.isSameSliceTransitionFree(g.vertex[a + j], g.vertex[b + k])) {
                    self.bridgeVertex(a + j, b + k);
                    continue;
                }
                g.edge.push_back(std::make_pair(a + j, b + k));
                g.weight.push_back(vectorEuclidean(g.vertex[a + j], g.vertex[b + k]));
            }
        }
    }
}

// the problem is taken over as given and nothing is solved yet
template <class R, class O>
void makePlanner(HighwayRoadMap<R, O>& self, const R& robot, const std::vector<O>& arena, const std::vector<O>& obs,
                 const PlanningRequest& req) {
    self.isRobotRigid_ = req.isRobotRigid;
    self.param_ = req.parameters;
    self.goal_ = req.goal;
    self.start_ = req.start;
    self.obs_ = obs;
    self.arena_ = arena;
    self.robot_ = robot;
    self.res_ = PlanningResult();
    self.isRefine_ = false;
}
template void makePlanner(HighwayRoadMap<MultiBodyTree2D, SuperEllipse>&, const MultiBodyTree2D&,
                          const std::vector<SuperEllipse>&, const std::vector<SuperEllipse>&, const PlanningRequest&);
template void makePlanner(HighwayRoadMap<MultiBodyTree3D, SuperQuadrics>&, const MultiBodyTree3D&,
                          const std::vector<SuperQuadrics>&, const std::vector<SuperQuadrics>&,
                          const PlanningRequest&);

#define INST(R, O)                                                             \
    template void plan<R, O>(Hrm<R, O>&, double);                              \
    template void build<R, O>(Hrm<R, O>&);                                     \
    template void refine<R, O>(Hrm<R, O>&, double);                            \
    template void searchGraph<R, O>(Hrm<R, O>&);                               \
    template std::vector<std::vector<Coordinate>> solution<R, O>(Hrm<R, O>&);  \
    template void detour<R, O>(Hrm<R, O>&, Index, Index);                      \
    template void connectSlice<R, O>(Hrm<R, O>&, const FreeSegment2D&);
INST(MultiBodyTree2D, SuperEllipse)
INST(MultiBodyTree3D, SuperQuadrics)
}  // namespace spec
