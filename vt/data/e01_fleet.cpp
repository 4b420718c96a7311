// reads one history of a fleet from a file, runs the exported planners and writes what they did
#include <casadi/casadi.hpp>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#define private public
#define protected public
#include "@CLS@_@NS@.hpp"
#include "Holonomic_@NS@.hpp"
#undef private
#undef protected

using namespace std;
using namespace @NS@;

void put(ostream& o, string key, const vector<double>& v){
    o << key;
    for (size_t k=0; k<v.size(); k++){ o << " " << v[k]; }
    o << "\n";
}

vector<double> get(istream& i, int n){
    vector<double> v(n);
    for (int k=0; k<n; k++){ string s; i >> s; v[k] = stod(s); }
    return v;
}

vector<double> getn(istream& i){ int n; i >> n; return get(i, n); }

int main(int argc, char** argv){
    ifstream in(argv[1]);
    ofstream out(argv[2]);
    out << setprecision(17);
    vector<double> o = get(in, 10); // vehicles, neighbours, iterations, init_iter, rho, update, sample, horizon, length, ideal
    int N = o[0], M = o[1], len = o[8];
    vector<@CLS@*> p(N);
    vector<Holonomic*> veh(N);
    vector<vector<double>> goal(N), rel(N), start(N);
    vector<vector<vector<double>>> st(N, vector<vector<double>>(len, vector<double>(2, -77.))), inp = st;
    for (int v=0; v<N; v++){
        veh[v] = new Holonomic();
        veh[v]->setIdealPrediction(o[9] != 0);
        if (o[4] < 0){
            p[v] = new @CLS@(veh[v], o[5], o[6], o[7], len);
        } else {
            p[v] = new @CLS@(veh[v], o[5], o[6], o[7], len, int(o[3]), o[4]);
        }
        start[v] = getn(in);
        goal[v] = getn(in);
        rel[v] = getn(in);
    }
    bool full = get(in, 1)[0] != 0;
    auto nb = [&](int v, int j){ return full ? (v+1+j)%N : (v+(j ? N-1 : 1))%N; };
    int ns = p[0]->n_shared;
    out << "H " << ns << " " << p[0]->n_nghb << " " << p[0]->init_iter << " " << p[0]->rho << " " << p[0]->n_obs << "\n";
    vector<obstacle_t> obs(p[0]->n_obs);
    for (int l=0; l<p[0]->n_obs; l++){
        obs[l].position = getn(in);
        obs[l].velocity = getn(in);
        obs[l].acceleration = getn(in);
        obs[l].checkpoints = getn(in);
        obs[l].radii = getn(in);
        obs[l].avoid = true;
    }
    vector<vector<double>> x(N, vector<double>(ns)), res(N, vector<double>(3));
    vector<vector<vector<double>>> xj(N, vector<vector<double>>(M, vector<double>(ns))), zji = xj, lji = xj, zij = xj, lij = xj;
    for (int k=0; k<int(o[2]); k++){
        int shift = get(in, 1)[0];
        bool plain = get(in, 1)[0] != 0;
        bool all = true;
        for (int v=0; v<N; v++){
            vector<double> noise = get(in, 2), s0 = start[v];
            if (k > p[v]->init_iter){
                s0 = p[v]->state_trajectory[shift];
                s0[0] += noise[0];
                s0[1] += noise[1];
            }
            bool ok;
            if (plain){
                ok = p[v]->update1(s0, goal[v], st[v], inp[v], x[v], zji[v], lji[v], obs, rel[v]);
            } else {
                ok = p[v]->update1(s0, goal[v], st[v], inp[v], x[v], zji[v], lji[v], obs, rel[v], shift);
            }
            out << "S " << k << " " << v << " " << (ok ? 1 : 0) << " " << p[v]->solver_output << "\n";
            put(out, "state0", s0);
            put(out, "p", vector<double>(p[v]->args["p"]));
            put(out, "x0", vector<double>(p[v]->args["x0"]));
            put(out, "lbg", vector<double>(p[v]->args["lbg"]));
            put(out, "ubg", vector<double>(p[v]->args["ubg"]));
            put(out, "x", p[v]->variables);
            put(out, "xi", x[v]);
            for (int j=0; j<2; j++){
                vector<double> a(len), b(len);
                for (int i=0; i<len; i++){ a[i] = st[v][i][j]; b[i] = inp[v][i][j]; }
                put(out, j ? "st1" : "st0", a);
                put(out, j ? "in1" : "in0", b);
            }
            all = all && ok;
        }
        if (!all){ break; }
        for (int v=0; v<N; v++){
            for (int j=0; j<M; j++){ xj[v][j] = x[nb(v, j)]; }
        }
        for (int v=0; v<N; v++){
            bool ok = p[v]->update2(xj[v], zij[v], lij[v], res[v]);
            out << "R " << k << " " << v << " " << (ok ? 1 : 0) << "\n";
            for (int j=0; j<M; j++){
                put(out, "zij" + to_string(j), zij[v][j]);
                put(out, "lij" + to_string(j), lij[v][j]);
            }
            put(out, "zi", p[v]->variables_admm["z_i"]);
            put(out, "li", p[v]->variables_admm["l_i"]);
            put(out, "res", res[v]);
        }
        for (int v=0; v<N; v++){
            for (int j=0; j<M; j++){
                zji[v][j] = zij[nb(v, j)][M-1-j];
                lji[v][j] = lij[nb(v, j)][M-1-j];
            }
        }
        out.flush();
    }
    out << "END\n";
    return 0;
}
