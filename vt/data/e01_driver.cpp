// reads histories of updates from a file, runs the exported planner and writes what it did
#include "Point2Point_@NS@.hpp"
#include "Holonomic_@NS@.hpp"
#include <fstream>
#include <iomanip>
#include <sstream>

using namespace std;
using namespace @NS@;

class Drifting: public Holonomic{
    public:
        double c, d;
        Drifting(double c, double d): Holonomic(), c(c), d(d){}
        void ode(vector<double>& state, vector<double>& input, vector<double>& dstate){
            vector<double> r(2);
            r[0] = input[0] - c*state[1] - d*state[0];
            r[1] = input[1] + c*state[0] - d*state[1];
            dstate = r;
        }
};

class Probe: public Point2Point{
    public:
        Probe(Vehicle* v, double u, double s, double h): Point2Point(v, u, s, h){}
        Probe(Vehicle* v, double u, double s, double h, int n): Point2Point(v, u, s, h, n){}
        vector<double> arg(string key){ return vector<double>(args[key]); }
        vector<double>& var(){ return variables; }
        vector<double> planned(int k){ return state_trajectory[k]; }
        string status(){ return solver_output; }
};

void put(ostream& o, string key, const vector<double>& v){
    o << key;
    for (size_t k=0; k<v.size(); k++){ o << " " << v[k]; }
    o << "\n";
}

vector<double> get(istream& i, int n){
    vector<double> v(n);
    for (int k=0; k<n; k++){ string s; i >> s; v[k] = stod(s); }
    return v;
}

vector<double> getn(istream& i){ int n; i >> n; return get(i, n); }

int main(int argc, char** argv){
    ifstream in(argv[1]);
    ofstream out(argv[2]);
    out << setprecision(17);
    int n_hist;
    in >> n_hist;
    for (int h=0; h<n_hist; h++){
        vector<double> o = get(in, 8); // update, sample, horizon, length, mode, c, d, steps
        Vehicle* veh = new Drifting(o[5], o[6]);
        veh->setIdealPrediction(o[4] == 0);
        veh->setProvidePrediction(o[4] == 1);
        int len = int(o[3]), nu = int(o[0]/o[1] + 0.5);
        Probe* p;
        if (len < 0){
            len = -len;
            p = new Probe(veh, o[0], o[1], o[2]);
        } else {
            p = new Probe(veh, o[0], o[1], o[2], len);
        }
        out << "H " << p->n_dim << " " << p->n_obs << " " << p->getLenBasis() << "\n";
        for (int k=0; k<int(o[7]); k++){
            vector<double> f = get(in, 5); // shift, recover, reset time, call without shift, first
            vector<double> state0 = get(in, 2), noise = get(in, 2), goal = get(in, 2);
            if (!f[4]){
                // measured at the moment of the update, or predicted by the user
                state0 = p->planned((o[4] == 1 ? nu : 0) + int(f[0]));
                state0[0] += noise[0];
                state0[1] += noise[1];
            }
            vector<obstacle_t> obs(p->n_obs);
            for (int l=0; l<p->n_obs; l++){
                obs[l].position = getn(in);
                obs[l].velocity = getn(in);
                obs[l].acceleration = getn(in);
                obs[l].checkpoints = getn(in);
                obs[l].radii = getn(in);
                obs[l].traj_coeffs = getn(in);
                obs[l].avoid = get(in, 1)[0] != 0;
            }
            vector<vector<double>> st(len, vector<double>(2, -77.)), inp(len, vector<double>(2, -77.));
            if (f[1]){ p->recover(); }
            if (f[2]){ p->resetTime(); }
            bool ok;
            if (f[3]){
                ok = p->update(state0, goal, st, inp, obs);
            } else {
                ok = p->update(state0, goal, st, inp, obs, int(f[0]));
            }
            out << "S " << (ok ? 1 : 0) << " " << p->status() << "\n";
            put(out, "state0", state0);
            put(out, "p", p->arg("p"));
            put(out, "x0", p->arg("x0"));
            put(out, "lbg", p->arg("lbg"));
            put(out, "ubg", p->arg("ubg"));
            put(out, "x", p->var());
            vector<double> co;
            p->getCoefficients(co);
            put(out, "coeffs", co);
            for (int j=0; j<2; j++){
                vector<double> a(len), b(len);
                for (int i=0; i<len; i++){ a[i] = st[i][j]; b[i] = inp[i][j]; }
                put(out, j ? "st1" : "st0", a);
                put(out, j ? "in1" : "in0", b);
            }
            out.flush();
            if (!ok){
                // skip the remaining updates of this history
                string line;
                getline(in, line);
                for (int l=k+1; l<int(o[7]); l++){ getline(in, line); }
                break;
            }
        }
        delete p;
        delete veh;
    }
    out << "END\n";
    return 0;
}
